// A small stand-in for the parts of the SOFA framework (v21.06+ API) that src/SofaCaribou is written against, so that the real
// SofaCaribou sources can be compiled and run here, where SOFA is not installed. Only behaviour documented by SOFA is modelled.
#pragma once
#include <Eigen/Core>
#include <algorithm>
#include <array>
#include <atomic>
#include <cctype>
#include <cmath>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

#define SOFA_EXPORT_DYNAMIC_LIBRARY
#define SOFA_IMPORT_DYNAMIC_LIBRARY
#define SOFA_VERSION 210699
#define SOFA_UNUSED(x) (void)(x)
#define SOFA_FILE_INFO 0
#define SOFA_DECL_CLASS(x)
using SReal = double;

namespace sofa { using Index = unsigned int; using Size = unsigned int; using SignedIndex = int; constexpr Index InvalidID = (Index)-1; }

// ------------------------------------------------------------------ sofa::type
namespace sofa::type {
template <typename T, std::size_t N> class fixed_array : public std::array<T, N> {
public:
    using Size = sofa::Size; static constexpr Size static_size = N;
    fixed_array() : std::array<T, N>{} {}
    template <class... A, std::enable_if_t<(sizeof...(A) == N) && (N > 1), int> = 0> fixed_array(A... a) : std::array<T, N>{{static_cast<T>(a)...}} {}
    friend std::ostream &operator<<(std::ostream &o, const fixed_array &a) { for (auto &v : a) o << v << ' '; return o; }
};
template <class T, class A = std::allocator<T>> class vector : public std::vector<T, A> {
public:
    using std::vector<T, A>::vector; using Size = sofa::Size;
    friend std::ostream &operator<<(std::ostream &o, const vector &v) { for (auto &x : v) o << x << ' '; return o; }
};
template <sofa::Size N, typename real = float> class Vec {
    std::array<real, N> e{};
public:
    using value_type = real; using Real = real; using Size = sofa::Size;
    static constexpr Size static_size = N, spatial_dimensions = N, total_size = N;
    using iterator = typename std::array<real, N>::iterator; using const_iterator = typename std::array<real, N>::const_iterator;
    constexpr Vec() = default;
    template <class... A, std::enable_if_t<(sizeof...(A) == N) && (N > 1) && (std::is_arithmetic_v<A> && ...), int> = 0> Vec(A... a) : e{{static_cast<real>(a)...}} {}
    template <sofa::Size M = N, std::enable_if_t<M == 1, int> = 0> explicit Vec(real a) { e[0] = a; }
    template <typename R2> explicit Vec(const R2 *p) { for (Size i = 0; i < N; ++i) e[i] = static_cast<real>(p[i]); }
    template <typename R2, std::enable_if_t<!std::is_same_v<R2, real>, int> = 0> Vec(const Vec<N, R2> &o) { for (Size i = 0; i < N; ++i) e[i] = static_cast<real>(o[i]); }
    real &operator[](std::size_t i) { return e[i]; } const real &operator[](std::size_t i) const { return e[i]; }
    real &operator()(std::size_t i) { return e[i]; } const real &operator()(std::size_t i) const { return e[i]; }
    real *ptr() { return e.data(); } const real *ptr() const { return e.data(); } const real *array() const { return e.data(); } real *data() { return e.data(); } const real *data() const { return e.data(); }
    iterator begin() { return e.begin(); } iterator end() { return e.end(); } const_iterator begin() const { return e.begin(); } const_iterator end() const { return e.end(); }
    static constexpr Size size() { return N; }
    void clear() { e.fill(0); } void fill(real v) { e.fill(v); } void set(real a, real b, real c) { e[0] = a; e[1] = b; e[2] = c; }
    real &x() { return e[0]; } real &y() { return e[1]; } real &z() { return e[2]; } const real &x() const { return e[0]; } const real &y() const { return e[1]; } const real &z() const { return e[2]; }
    Vec operator+(const Vec &o) const { Vec r; for (Size i = 0; i < N; ++i) r[i] = e[i] + o[i]; return r; }
    Vec operator-(const Vec &o) const { Vec r; for (Size i = 0; i < N; ++i) r[i] = e[i] - o[i]; return r; }
    Vec operator-() const { Vec r; for (Size i = 0; i < N; ++i) r[i] = -e[i]; return r; }
    Vec &operator+=(const Vec &o) { for (Size i = 0; i < N; ++i) e[i] += o[i]; return *this; }
    Vec &operator-=(const Vec &o) { for (Size i = 0; i < N; ++i) e[i] -= o[i]; return *this; }
    template <class S, std::enable_if_t<std::is_arithmetic_v<S>, int> = 0> Vec operator*(S f) const { Vec r; for (Size i = 0; i < N; ++i) r[i] = static_cast<real>(e[i] * f); return r; }
    template <class S, std::enable_if_t<std::is_arithmetic_v<S>, int> = 0> friend Vec operator*(S f, const Vec &v) { return v * f; }
    template <class S, std::enable_if_t<std::is_arithmetic_v<S>, int> = 0> Vec operator/(S f) const { Vec r; for (Size i = 0; i < N; ++i) r[i] = static_cast<real>(e[i] / f); return r; }
    template <class S, std::enable_if_t<std::is_arithmetic_v<S>, int> = 0> Vec &operator*=(S f) { for (Size i = 0; i < N; ++i) e[i] *= f; return *this; }
    template <class S, std::enable_if_t<std::is_arithmetic_v<S>, int> = 0> Vec &operator/=(S f) { for (Size i = 0; i < N; ++i) e[i] /= f; return *this; }
    real operator*(const Vec &o) const { real r = 0; for (Size i = 0; i < N; ++i) r += e[i] * o[i]; return r; }
    real norm2() const { return *this * *this; } real norm() const { return std::sqrt(norm2()); }
    Vec normalized() const { return *this / norm(); }
    Vec cross(const Vec &b) const { static_assert(N == 3); return Vec(e[1] * b[2] - e[2] * b[1], e[2] * b[0] - e[0] * b[2], e[0] * b[1] - e[1] * b[0]); }
    bool operator==(const Vec &o) const { return e == o.e; } bool operator!=(const Vec &o) const { return e != o.e; } bool operator<(const Vec &o) const { return e < o.e; }
    friend std::ostream &operator<<(std::ostream &o, const Vec &v) { for (Size i = 0; i < N; ++i) o << (i ? " " : "") << v[i]; return o; }
    friend std::istream &operator>>(std::istream &o, Vec &v) { for (Size i = 0; i < N; ++i) o >> v[i]; return o; }
};
using Vec1d = Vec<1, double>; using Vec2d = Vec<2, double>; using Vec3d = Vec<3, double>; using Vec4d = Vec<4, double>; using Vec3f = Vec<3, float>; using Vec4f = Vec<4, float>;
using Vector1 = Vec<1, SReal>; using Vector2 = Vec<2, SReal>; using Vector3 = Vec<3, SReal>; using Vector4 = Vec<4, SReal>;
using Vec3i = Vec<3, int>; using Vec2i = Vec<2, int>;
template <sofa::Size L, sofa::Size C, class real = float> class Mat {
    std::array<Vec<C, real>, L> r{};
public:
    Vec<C, real> &operator[](std::size_t i) { return r[i]; } const Vec<C, real> &operator[](std::size_t i) const { return r[i]; }
    real &operator()(std::size_t i, std::size_t j) { return r[i][j]; } const real &operator()(std::size_t i, std::size_t j) const { return r[i][j]; }
    static constexpr sofa::Size nbLines = L, nbCols = C; Mat<C, L, real> transposed() const { Mat<C, L, real> t; for (std::size_t i = 0; i < L; ++i) for (std::size_t j = 0; j < C; ++j) t[j][i] = r[i][j]; return t; } Mat() = default; template <class... A, std::enable_if_t<(sizeof...(A) == L) && (L > 1) && (std::is_convertible_v<A, Vec<C, real>> && ...), int> = 0> Mat(const A &...a) : r{{a...}} {} Mat operator*(real f) const { Mat o = *this; for (auto &v : o.r) v *= f; return o; } template <sofa::Size P> Mat<L, P, real> operator*(const Mat<C, P, real> &o) const { Mat<L, P, real> x; for (std::size_t i = 0; i < L; ++i) for (std::size_t j = 0; j < P; ++j) for (std::size_t k = 0; k < C; ++k) x[i][j] += r[i][k] * o[k][j]; return x; } Mat operator-() const { return *this * real(-1); } friend Mat operator*(real f, const Mat &m) { return m * f; } const real *data() const { return r[0].data(); } real *ptr() { return r[0].ptr(); } void clear() { for (auto &v : r) v.clear(); }
};
using Mat3x3d = Mat<3, 3, double>; using Mat3x3f = Mat<3, 3, float>; using Mat2x2d = Mat<2, 2, double>; using Mat2x2f = Mat<2, 2, float>; using Mat3x3 = Mat<3, 3, SReal>;
class RGBAColor : public fixed_array<float, 4> {
public:
    RGBAColor() = default; RGBAColor(float r, float g, float b, float a) : fixed_array<float, 4>(r, g, b, a) {}
    static RGBAColor red() { return {1, 0, 0, 1}; } static RGBAColor black() { return {0, 0, 0, 1}; } static RGBAColor green() { return {0, 1, 0, 1}; } static RGBAColor blue() { return {0, 0, 1, 1}; } static RGBAColor white() { return {1, 1, 1, 1}; } static RGBAColor gray() { return {.5, .5, .5, 1}; } static RGBAColor yellow() { return {1, 1, 0, 1}; } static RGBAColor lightgreen() { return {.5, 1, .5, 1}; } static RGBAColor darkgray() { return {.3, .3, .3, 1}; }
};
template <class R> class TBoundingBox { public: Vec<3, R> lo, hi; TBoundingBox() { lo = Vec<3, R>(1, 1, 1); hi = Vec<3, R>(-1, -1, -1); } TBoundingBox(const R *a, const R *b) : lo(a), hi(b) {} const Vec<3, R> &minBBox() const { return lo; } const Vec<3, R> &maxBBox() const { return hi; } };
using BoundingBox = TBoundingBox<SReal>;
}
namespace sofa::helper { template <class T> using vector = sofa::type::vector<T>; }

// ------------------------------------------------------------------ matrices, vectors, data types
namespace sofa::defaulttype {
using sofa::type::Vector3; using sofa::type::BoundingBox; using sofa::type::Vec; using sofa::type::Mat; using sofa::type::Vec3d; using sofa::type::Mat3x3;
class BaseMatrix {
public:
    using Index = sofa::SignedIndex; using Real = SReal;
    virtual ~BaseMatrix() = default;
    virtual Index rowSize() const = 0; virtual Index colSize() const = 0; virtual SReal element(Index i, Index j) const = 0;
    virtual void resize(Index nbRow, Index nbCol) = 0; virtual void clear() = 0;
    virtual void set(Index i, Index j, double v) = 0; virtual void add(Index i, Index j, double v) = 0;
    virtual void add(Index i, Index j, const sofa::type::Mat3x3d &m) { for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) add(i + a, j + b, (double)m[a][b]); }
    virtual void add(Index i, Index j, const sofa::type::Mat3x3f &m) { for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) add(i + a, j + b, (double)m[a][b]); }
    virtual void add(Index i, Index j, const sofa::type::Mat2x2d &m) { for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) add(i + a, j + b, (double)m[a][b]); }
    virtual void add(Index i, Index j, const sofa::type::Mat2x2f &m) { for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) add(i + a, j + b, (double)m[a][b]); }
    virtual void clear(Index i, Index j) { set(i, j, 0.0); }
    virtual void clearRow(Index i) { for (Index j = 0; j < colSize(); ++j) clear(i, j); }
    virtual void clearRows(Index a, Index b) { for (Index i = a; i < b; ++i) clearRow(i); }
    virtual void clearCol(Index j) { for (Index i = 0; i < rowSize(); ++i) clear(i, j); }
    virtual void clearCols(Index a, Index b) { for (Index i = a; i < b; ++i) clearCol(i); }
    virtual void clearRowCol(Index i) { clearRow(i); clearCol(i); }
    virtual void compress() {}
};
class BaseVector {
public:
    using Index = sofa::SignedIndex; using Real = SReal;
    enum ElementType { ELEMENT_UNKNOWN = 0, ELEMENT_FLOAT, ELEMENT_INT };
    virtual ~BaseVector() = default;
    virtual Index size() const = 0; virtual SReal element(Index i) const = 0; virtual void resize(Index dim) = 0; virtual void clear() = 0;
    virtual void set(Index i, SReal v) = 0; virtual void add(Index i, SReal v) = 0;
    virtual ElementType getElementType() const { return ELEMENT_FLOAT; } virtual std::size_t getElementSize() const { return sizeof(SReal); }
};
template <class T> class MapMapSparseMatrix {
public:
    using Row = std::map<unsigned, T>; std::map<unsigned, Row> m;
    struct ColConst { typename Row::const_iterator i; unsigned index() const { return i->first; } const T &val() const { return i->second; } void operator++() { ++i; } void operator++(int) { ++i; } bool operator==(const ColConst &o) const { return i == o.i; } bool operator!=(const ColConst &o) const { return i != o.i; } };
    struct RowConst { typename std::map<unsigned, Row>::const_iterator i; unsigned index() const { return i->first; } ColConst begin() const { return {i->second.begin()}; } ColConst end() const { return {i->second.end()}; } const Row &row() const { return i->second; } void operator++() { ++i; } void operator++(int) { ++i; } bool operator==(const RowConst &o) const { return i == o.i; } bool operator!=(const RowConst &o) const { return i != o.i; } };
    struct RowWrite { Row *r; unsigned k; unsigned index() const { return k; } void addCol(unsigned c, const T &v) { auto it = r->find(c); if (it == r->end()) r->emplace(c, v); else it->second += v; } void setCol(unsigned c, const T &v) { (*r)[c] = v; } };
    using RowConstIterator = RowConst; using ColConstIterator = ColConst; using RowIterator = RowWrite;
    RowConst begin() const { return {m.begin()}; } RowConst end() const { return {m.end()}; } RowWrite writeLine(unsigned i) { return {&m[i], i}; }
    RowConst readLine(unsigned i) const { return {m.find(i)}; } void clear() { m.clear(); } std::size_t size() const { return m.size(); }
};
template <int N> struct StdVecTypes {
    using Coord = sofa::type::Vec<N, SReal>; using Deriv = Coord; using Real = SReal;
    using VecCoord = sofa::type::vector<Coord>; using VecDeriv = sofa::type::vector<Deriv>; using VecReal = sofa::type::vector<Real>; using MatrixDeriv = MapMapSparseMatrix<Deriv>;
    static constexpr sofa::Size spatial_dimensions = N, coord_total_size = N, deriv_total_size = N;
    static const char *Name() { static const std::string n = "Vec" + std::to_string(N) + "d"; return n.c_str(); }
};
using Vec1Types = StdVecTypes<1>; using Vec2Types = StdVecTypes<2>; using Vec3Types = StdVecTypes<3>; using Vec1dTypes = Vec1Types; using Vec2dTypes = Vec2Types; using Vec3dTypes = Vec3Types;
}
namespace sofa::component::linearsolver {
template <class T> class FullVector : public sofa::defaulttype::BaseVector {
    std::vector<T> v;
public:
    FullVector() = default; explicit FullVector(Index n) : v(n, T(0)) {}
    Index size() const override { return (Index)v.size(); } SReal element(Index i) const override { return v.at(i); } void resize(Index n) override { v.assign(n, T(0)); } void clear() override { std::fill(v.begin(), v.end(), T(0)); }
    void set(Index i, SReal x) override { v.at(i) = (T)x; } void add(Index i, SReal x) override { v.at(i) += (T)x; }
    T &operator[](Index i) { return v.at(i); } const T &operator[](Index i) const { return v.at(i); }
    T dot(const FullVector &o) const { T r = 0; for (std::size_t i = 0; i < v.size(); ++i) r += v[i] * o.v[i]; return r; }
    T *ptr() { return v.data(); } const T *ptr() const { return v.data(); }
};
}

// ------------------------------------------------------------------ object model
namespace sofa::core { class ExecParams; class MechanicalParams; class ConstraintParams; class BaseState; class BaseMapping; namespace visual { class VisualParams; } namespace behavior { class BaseMechanicalState; } namespace topology { class Topology; class BaseMeshTopology; } }
namespace sofa::simulation { class Node; }
namespace sofa::shim {   // recorder of what components report
struct LogEntry { int level; std::string text; };
inline std::vector<LogEntry> &log() { static std::vector<LogEntry> l; return l; }
struct Msg { int level; std::ostringstream s; explicit Msg(int l) : level(l) {} ~Msg() { if (log().size() < 100000) log().push_back({level, s.str()}); } template <class T> Msg &operator<<(const T &v) { s << v; return *this; } Msg &operator<<(std::ostream &(*f)(std::ostream &)) { s << f; return *this; } Msg &operator<<(std::ios_base &(*f)(std::ios_base &)) { s << f; return *this; } };
inline unsigned count(int level) { unsigned n = 0; for (auto &e : log()) n += e.level == level; return n; }
}
// as in SOFA, the operands of an information message are evaluated only when the component's printLog is on
#define msg_info(...) if (!this->notMuted()) {} else ::sofa::shim::Msg(0)
#define msg_info_when(c) if (!(c) || !this->notMuted()) {} else ::sofa::shim::Msg(0)
#define msg_warning(...) ::sofa::shim::Msg(1)
#define msg_error(...) ::sofa::shim::Msg(2)
#define msg_error_when(c) if (!(c)) {} else ::sofa::shim::Msg(2)
#ifndef msg_warning_when
#define msg_warning_when(c) if (!(c)) {} else ::sofa::shim::Msg(1)
#endif
#ifndef msg_advice
#define msg_advice(...) ::sofa::shim::Msg(0)
#endif
#ifndef msg_deprecated
#define msg_deprecated(...) ::sofa::shim::Msg(0)
#endif
#ifndef dmsg_info
#define dmsg_info(...) if (true) {} else ::sofa::shim::Msg(0)
#endif
#ifndef dmsg_warning
#define dmsg_warning(...) if (true) {} else ::sofa::shim::Msg(1)
#endif
#ifndef dmsg_error
#define dmsg_error(...) if (true) {} else ::sofa::shim::Msg(2)
#endif

namespace sofa::core {
template <class T> class sptr {
    T *p = nullptr;
public:
    using element_type = T;
    sptr() = default; sptr(std::nullptr_t) {} sptr(T *q) : p(q) { if (p) p->addRef(); } sptr(const sptr &o) : sptr(o.p) {} template <class U, std::enable_if_t<std::is_convertible_v<U *, T *>, int> = 0> sptr(const sptr<U> &o) : sptr(o.get()) {}
    ~sptr() { reset(); } void reset() { T *q = p; p = nullptr; if (q) q->release(); } void reset(T *q) { *this = sptr(q); }
    sptr &operator=(const sptr &o) { sptr t(o); std::swap(p, t.p); return *this; }
    T *get() const { return p; } T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; } operator T *() const { return p; }
};
}
namespace sofa::core::objectmodel {
class Base; class BaseObject; class BaseContext; class BaseData;
class Event { public: virtual ~Event() = default; };
struct BaseClass { std::string className, typeName, templateName; };
template <class T> class Data;
class BaseObjectDescription {
    std::map<std::string, std::string> a; public: std::vector<std::string> errors;
    BaseObjectDescription(const char *name = "", const char *type = "") { if (*name) a["name"] = name; if (*type) a["type"] = type; }
    const char *getAttribute(const std::string &k, const char *d = nullptr) { auto i = a.find(k); return i == a.end() ? d : i->second.c_str(); }
    void setAttribute(const std::string &k, const std::string &v) { a[k] = v; } bool hasAttribute(const std::string &k) { return a.count(k); } void logError(const std::string &s) { errors.push_back(s); } std::string getName() { return getAttribute("name", ""); }
};
class BaseData {
public:
    std::string m_name, m_help; Base *m_owner = nullptr; bool m_isSet = false; unsigned m_counter = 0;
    virtual ~BaseData() { for (auto *c : m_children) c->drop_parent(); }
    const std::string &getName() const { return m_name; } bool isSet() const { return m_isSet; } Base *getOwner() const { return m_owner; }
    virtual bool setParent(BaseData *, const std::string & = {}) = 0; virtual BaseData *getParent() const = 0; std::string getLinkPath() const; std::string getLinkName() const { return m_name; }
    int getCounter() const { return (int)m_counter; } void setReadOnly(bool) {} void setDisplayed(bool) {} void setGroup(const char *) {} void setPersistent(bool) {}
    virtual void drop_parent() = 0; std::vector<BaseData *> m_children;
};
template <class T> class Data : public BaseData {
    mutable T v{}; Data<T> *parent = nullptr; mutable unsigned seen = 0;
    void pull() const { if (parent) { parent->pull(); if (parent->m_counter != seen) { seen = parent->m_counter; v = parent->v; const_cast<Data *>(this)->m_counter++; } } }
public:
    using value_type = T;
    struct InitData { Base *owner = nullptr; T value{}; const char *name = ""; const char *help = ""; };
    Data() = default; explicit Data(const InitData &i); Data(const Data &) = delete; Data &operator=(const Data &) = delete;
    ~Data() override { if (parent) { auto &c = parent->m_children; c.erase(std::remove(c.begin(), c.end(), this), c.end()); } }
    const T &getValue() const { pull(); return v; } void setValue(const T &x) { v = x; m_isSet = true; m_counter++; }
    T *beginEdit() { pull(); m_isSet = true; m_counter++; return &v; } T *beginWriteOnly() { return beginEdit(); } void endEdit() {}
    bool setParent(BaseData *p, const std::string & = {}) override { auto *q = dynamic_cast<Data<T> *>(p); if (!q || q == this) return false; if (parent) { auto &c = parent->m_children; c.erase(std::remove(c.begin(), c.end(), this), c.end()); } parent = q; q->m_children.push_back(this); seen = q->m_counter - 1; m_isSet = true; return true; }
    BaseData *getParent() const override { return parent; } void drop_parent() override { parent = nullptr; }
    operator const T &() const { return getValue(); }
};
struct LinkInit { Base *owner; const char *name; const char *help; };
class BaseLink { public: enum { FLAG_NONE = 0, FLAG_MULTILINK = 1, FLAG_STRONGLINK = 2, FLAG_DOUBLELINK = 4, FLAG_DUPLICATE = 8, FLAG_STOREPATH = 16 }; std::string m_name; virtual ~BaseLink() = default; const std::string &getName() const { return m_name; } virtual bool set_object(Base *) = 0; };
template <class Owner, class Dest, unsigned F> class SingleLink : public BaseLink {
    sofa::core::sptr<Dest> strong; Dest *weak = nullptr; std::string path;
public:
    explicit SingleLink(const LinkInit &i); SingleLink() = default;
    Dest *get(std::size_t = 0) const { return weak; } void set(Dest *d) { weak = d; if constexpr (F & FLAG_STRONGLINK) strong = sofa::core::sptr<Dest>(d); } template <class U> void set(const sofa::core::sptr<U> &d) { set(static_cast<Dest *>(d.get())); } void reset() { set((Dest *)nullptr); }
    bool empty() const { return !weak; } Dest *operator->() const { return weak; } Dest &operator*() const { return *weak; } operator Dest *() const { return weak; } std::size_t size() const { return weak ? 1 : 0; }
    SingleLink &operator=(Dest *d) { set(d); return *this; } bool set_object(Base *b) override { auto *d = dynamic_cast<Dest *>(b); if (!d) return false; set(d); return true; } std::string getPath() const { return path; } void setPath(const std::string &p) { path = p; }
};
class Base {
    mutable std::atomic<int> refs{0};   // as in SOFA, reference counts may be shared between threads
public:
    std::map<std::string, BaseData *> m_data; std::map<std::string, BaseLink *> m_links; Data<std::string> name; Data<bool> f_printLog; Data<sofa::type::BoundingBox> f_bbox;
    Base(); virtual ~Base() = default; Base(const Base &) = delete; Base &operator=(const Base &) = delete;
    void addRef() const { ++refs; } void release() const { if (--refs == 0) delete this; } int refCount() const { return refs; }
    BaseData *findData(const std::string &n) const { auto i = m_data.find(n); return i == m_data.end() ? nullptr : i->second; } BaseLink *findLink(const std::string &n) const { auto i = m_links.find(n); return i == m_links.end() ? nullptr : i->second; }
    void addData(BaseData *d, const std::string &n) { d->m_name = n; d->m_owner = this; m_data[n] = d; }
    const std::string &getName() const { return name.getValue(); } void setName(const std::string &n) { name.setValue(n); } virtual std::string getPathName() const { return getName(); }
    bool notMuted() const { return f_printLog.getValue(); }
    virtual const BaseClass *getClass() const { static BaseClass c{"Base", "Base", ""}; return &c; } virtual std::string getClassName() const { return getClass()->className; } virtual std::string getTemplateName() const { return getClass()->templateName; }
    template <class T> typename Data<T>::InitData initData(Data<T> *, const char *n, const char *h, bool = true, bool = false) { typename Data<T>::InitData i; i.owner = this; i.name = n; i.help = h; return i; }
    template <class T> struct ident { using type = T; };
    template <class T> typename Data<T>::InitData initData(Data<T> *, const typename ident<T>::type &v, const char *n, const char *h, bool = true, bool = false) { typename Data<T>::InitData i; i.owner = this; i.value = v; i.name = n; i.help = h; return i; }
    LinkInit initLink(const char *n, const char *h) { return {this, n, h}; } void addAlias(BaseData *d, const char *n) { m_data[n] = d; }
};
inline std::string BaseData::getLinkPath() const { return m_owner ? "@" + m_owner->getPathName() + "." + m_name : m_name; }
template <class T> Data<T>::Data(const InitData &i) : v(i.value) { m_counter = 1; m_help = i.help; m_name = i.name; m_owner = i.owner; if (i.owner) i.owner->m_data[i.name] = this; }
template <class O, class D, unsigned F> SingleLink<O, D, F>::SingleLink(const LinkInit &i) { m_name = i.name; i.owner->m_links[i.name] = this; }
inline Base::Base() : name(initData(&name, std::string(), "name", "")), f_printLog(initData(&f_printLog, false, "printLog", "")), f_bbox(initData(&f_bbox, "bbox", "")) {}

template <class T> class New : public T::SPtr { public: template <class... A> New(A &&...a) : T::SPtr(new T(std::forward<A>(a)...)) {} };
template <class T> std::string shim_type_name() { std::string s = __PRETTY_FUNCTION__; auto a = s.find("T = "); s = s.substr(a + 4); s = s.substr(0, s.find(';')); if (!s.empty() && s.back() == ']') s.pop_back(); return s; }
inline std::string shim_class_name(std::string s) { auto lt = s.find('<'); s = s.substr(0, lt); auto c = s.rfind("::"); return c == std::string::npos ? s : s.substr(c + 2); }

class BaseContext;
class BaseObject : public Base {
    BaseContext *ctx = nullptr;
public:
    using SPtr = sofa::core::sptr<BaseObject>; using MyType = BaseObject;
    Data<bool> f_listening; BaseObject() : f_listening(initData(&f_listening, false, "listening", "")) {}
    static const BaseClass *GetClass() { static BaseClass c{"BaseObject", "BaseObject", ""}; return &c; }
    BaseContext *getContext() const { return ctx; } void setContext(BaseContext *c) { ctx = c; } std::string getPathName() const override;
    virtual void init() {} virtual void bwdInit() {} virtual void reinit() {} virtual void reset() {} virtual void cleanup() {} virtual void handleEvent(Event *) {} virtual void draw(const sofa::core::visual::VisualParams *) {} virtual void computeBBox(const sofa::core::ExecParams *, bool = false) {}
    SReal getTime() const;
    template <class T> static bool canCreate(T *, BaseContext *, BaseObjectDescription *) { return true; }
    template <class T> static std::string templateName(const T * = nullptr) { return ""; }
};
#define SOFA_TEMPLATE(C, P1) C<P1>
#define SOFA_TEMPLATE2(C, P1, P2) C<P1, P2>
#define SOFA_CLASS(T, ...) using MyType = T; using Inherit1 = __VA_ARGS__; using SPtr = ::sofa::core::sptr<MyType>; \
    static const ::sofa::core::objectmodel::BaseClass *GetClass() { static ::sofa::core::objectmodel::BaseClass c{::sofa::core::objectmodel::shim_class_name(::sofa::core::objectmodel::shim_type_name<MyType>()), ::sofa::core::objectmodel::shim_type_name<MyType>(), ""}; return &c; } \
    const ::sofa::core::objectmodel::BaseClass *getClass() const override { return GetClass(); } using Inherit1::initData; using Inherit1::initLink; using Inherit1::addAlias; template <class> friend class ::sofa::core::objectmodel::New


class BaseContext : public virtual Base {
public:
    enum SearchDirection { SearchUp = -1, Local = 0, SearchDown = 1, SearchRoot = 2, SearchParents = 3 };
    using TagSet = int;
    std::vector<sofa::core::sptr<BaseObject>> m_objects; std::vector<BaseContext *> m_children; BaseContext *m_parent = nullptr; SReal m_time = 0, m_dt = 0.01;
    BaseContext *getContext() { return this; } const BaseContext *getContext() const { return this; } TagSet getTags() const { return 0; } SReal getTime() const { return m_time; } SReal getDt() const { return m_dt; }
    BaseContext *getRootContext() const { auto *c = const_cast<BaseContext *>(this); while (c->m_parent) c = c->m_parent; return c; }
    std::string getPathName() const override { return m_parent ? (m_parent->m_parent ? m_parent->getPathName() : std::string()) + "/" + getName() : std::string("/"); }
    template <class T, class V> void collect(std::vector<V> &r, SearchDirection d) const {
        for (auto &o : m_objects) if (auto *t = dynamic_cast<T *>(o.get())) r.push_back(t);
        if (d == SearchUp || d == SearchParents) { if (m_parent) m_parent->collect<T>(r, SearchUp); } else if (d == SearchDown) for (auto *c : m_children) c->collect<T>(r, SearchDown);
    }
    template <class T> std::vector<T *> getObjects(SearchDirection d = SearchUp) const { std::vector<T *> r; if (d == SearchRoot) getRootContext()->collect<T>(r, SearchDown); else collect<T>(r, d); return r; }
    template <class T> T *get(SearchDirection d = SearchUp) const { auto v = getObjects<T>(d); return v.empty() ? nullptr : v.front(); }
    template <class T> T *get(const TagSet &, SearchDirection d) const { return get<T>(d); }
    BaseObject *byPath(const std::string &p) const { const BaseContext *c = this; std::string s = p; if (!s.empty() && s[0] == '/') { c = getRootContext(); s = s.substr(1); } for (std::size_t k; (k = s.find('/')) != std::string::npos; s = s.substr(k + 1)) { const BaseContext *n = nullptr; for (auto *x : c->m_children) if (x->getName() == s.substr(0, k)) n = x; if (!n) return nullptr; c = n; } for (auto &o : c->m_objects) if (o->getName() == s) return o.get(); return nullptr; }
    template <class T> T *get(const std::string &path) const { return dynamic_cast<T *>(byPath(path)); }
    sofa::core::behavior::BaseMechanicalState *getMechanicalState() const; sofa::core::BaseState *getState() const;
    void addObject(BaseObject *o) { m_objects.emplace_back(o); o->setContext(this); }
    bool removeObject(BaseObject *o) { for (auto i = m_objects.begin(); i != m_objects.end(); ++i) if (i->get() == o) { m_objects.erase(i); return true; } return false; }
};
inline std::string BaseObject::getPathName() const { auto *c = getContext(); std::string p = c ? c->getPathName() : ""; return (p == "/" ? p : p + "/") + getName(); }
inline SReal BaseObject::getTime() const { return getContext() ? getContext()->getTime() : 0; }
}
namespace sofa::core { using objectmodel::BaseContext; } namespace sofa { using core::objectmodel::Data; }
namespace sofa::core {
using objectmodel::Data;
// ------------------------------------------------------------------ vector identifiers and parameters
enum VecType { V_ALL = 0, V_COORD, V_DERIV, V_MATDERIV }; enum VecAccess { V_READ = 0, V_WRITE };
template <VecType T, VecAccess A> struct TVecId {
    VecType type = T; unsigned index = 0;
    TVecId() = default; explicit TVecId(unsigned i) : index(i) {}
    template <VecType T2, VecAccess A2, std::enable_if_t<(A2 == V_WRITE || A == V_READ) && (T2 == T || T == V_ALL), int> = 0> TVecId(const TVecId<T2, A2> &o) : type(T == V_ALL ? o.type : T), index(o.index) {}
    template <VecType T2, VecAccess A2, std::enable_if_t<(A2 == V_WRITE || A == V_READ) && (T2 == V_ALL && T != V_ALL), int> = 0, int = 0> explicit TVecId(const TVecId<T2, A2> &o) : index(o.index) { if (o.type != T && o.index) throw std::logic_error("TVecId: wrong vector type"); }
    static TVecId null() { return TVecId(0u); } bool isNull() const { return index == 0; } unsigned getIndex() const { return index; } VecType getType() const { return type; }
    static TVecId position() { static_assert(T == V_COORD); return TVecId(1u); } static TVecId restPosition() { static_assert(T == V_COORD); return TVecId(2u); } static TVecId freePosition() { static_assert(T == V_COORD); return TVecId(3u); } static TVecId resetPosition() { static_assert(T == V_COORD); return TVecId(4u); }
    static TVecId velocity() { static_assert(T == V_DERIV); return TVecId(1u); } static TVecId resetVelocity() { return TVecId(2u); } static TVecId freeVelocity() { return TVecId(3u); } static TVecId force() { static_assert(T == V_DERIV); return TVecId(5u); } static TVecId externalForce() { return TVecId(6u); } static TVecId dx() { static_assert(T == V_DERIV); return TVecId(7u); } static TVecId dforce() { static_assert(T == V_DERIV); return TVecId(8u); }
    bool operator==(const TVecId &o) const { return type == o.type && index == o.index; } bool operator!=(const TVecId &o) const { return !(*this == o); }
    std::string getName() const { return std::string(type == V_COORD ? "x" : type == V_DERIV ? "v" : "m") + std::to_string(index); }
};
using VecId = TVecId<V_ALL, V_WRITE>; using ConstVecId = TVecId<V_ALL, V_READ>; using VecCoordId = TVecId<V_COORD, V_WRITE>; using ConstVecCoordId = TVecId<V_COORD, V_READ>; using VecDerivId = TVecId<V_DERIV, V_WRITE>; using ConstVecDerivId = TVecId<V_DERIV, V_READ>; using MatrixDerivId = TVecId<V_MATDERIV, V_WRITE>; using ConstMatrixDerivId = TVecId<V_MATDERIV, V_READ>;
template <VecType T, VecAccess A> struct TMultiVecId {
    using Id = TVecId<T, A>; Id def; std::map<const BaseState *, Id> ids;
    TMultiVecId() = default; template <VecType T2, VecAccess A2, std::enable_if_t<std::is_convertible_v<TVecId<T2, A2>, Id>, int> = 0> TMultiVecId(const TVecId<T2, A2> &i) : def(i) {}
    template <VecType T2, VecAccess A2, std::enable_if_t<std::is_convertible_v<TVecId<T2, A2>, Id> && !(T2 == T && A2 == A), int> = 0> TMultiVecId(const TMultiVecId<T2, A2> &o) : def(o.def) { for (auto &p : o.ids) ids[p.first] = Id(p.second); }
    void setId(const BaseState *s, const Id &i) { ids[s] = i; } const Id &getDefaultId() const { return def; } const Id &getId(const BaseState *s) const { auto i = ids.find(s); return i == ids.end() ? def : i->second; } bool isNull() const { return def.isNull() && ids.empty(); } std::string getName() const { return def.getName(); }
};
using MultiVecId = TMultiVecId<V_ALL, V_WRITE>; using ConstMultiVecId = TMultiVecId<V_ALL, V_READ>; using MultiVecCoordId = TMultiVecId<V_COORD, V_WRITE>; using ConstMultiVecCoordId = TMultiVecId<V_COORD, V_READ>; using MultiVecDerivId = TMultiVecId<V_DERIV, V_WRITE>; using ConstMultiVecDerivId = TMultiVecId<V_DERIV, V_READ>; using MultiMatrixDerivId = TMultiVecId<V_MATDERIV, V_WRITE>; using ConstMultiMatrixDerivId = TMultiVecId<V_MATDERIV, V_READ>;
class ExecParams { public: virtual ~ExecParams() = default; static ExecParams *defaultInstance() { static ExecParams p; return &p; } };
class MechanicalParams : public ExecParams {
    SReal m = 0, b = 0, k = 0, h = 0.01; bool imp = false; ConstMultiVecCoordId x_{ConstVecCoordId::position()}; ConstMultiVecDerivId v_{ConstVecDerivId::velocity()}, f_{ConstVecDerivId::force()}, dx_{ConstVecDerivId::dx()}, df_{ConstVecDerivId::dforce()};
public:
    MechanicalParams() = default; MechanicalParams(const ExecParams &e) : ExecParams(e) { if (auto *p = dynamic_cast<const MechanicalParams *>(&e)) *this = *p; } MechanicalParams(const MechanicalParams &) = default; MechanicalParams &operator=(const MechanicalParams &) = default;
    static const MechanicalParams *defaultInstance() { static MechanicalParams p; return &p; }
    SReal dt() const { return h; } SReal mFactor() const { return m; } SReal bFactor() const { return b; } SReal kFactor() const { return k; } bool implicit() const { return imp; }
    SReal kFactorIncludingRayleighDamping(SReal d) const { return k + b * d; } SReal mFactorIncludingRayleighDamping(SReal d) const { return m - b * d; }
    void setDt(SReal v) { h = v; } void setMFactor(SReal v) { m = v; } void setBFactor(SReal v) { b = v; } void setKFactor(SReal v) { k = v; } void setImplicit(bool v) { imp = v; }
    const ConstMultiVecCoordId &x() const { return x_; } const ConstMultiVecDerivId &v() const { return v_; } const ConstMultiVecDerivId &f() const { return f_; } const ConstMultiVecDerivId &dx() const { return dx_; } const ConstMultiVecDerivId &df() const { return df_; }
    MechanicalParams &setX(const ConstMultiVecCoordId &i) { x_ = i; return *this; } MechanicalParams &setV(const ConstMultiVecDerivId &i) { v_ = i; return *this; } MechanicalParams &setF(const ConstMultiVecDerivId &i) { f_ = i; return *this; } MechanicalParams &setDx(const ConstMultiVecDerivId &i) { dx_ = i; return *this; } MechanicalParams &setDf(const ConstMultiVecDerivId &i) { df_ = i; return *this; }
};
class ConstraintParams : public ExecParams { public: enum ConstOrder { POS = 0, VEL, ACC, POS_AND_VEL }; ConstOrder o = POS_AND_VEL; ConstraintParams() = default; ConstraintParams(const ExecParams &e) : ExecParams(e) {} ConstOrder constOrder() const { return o; } ConstraintParams &setOrder(ConstOrder v) { o = v; return *this; } };
}
namespace sofa::helper {
template <class T> class ReadAccessor; template <class T> class WriteAccessor;
template <class T> class ReadAccessor<sofa::core::objectmodel::Data<T>> {
    const T *p;
public:
    using D = sofa::core::objectmodel::Data<T>; using container_type = T;
    ReadAccessor(const D &d) : p(&d.getValue()) {} ReadAccessor(const D *d) : p(&d->getValue()) {}
    const T &ref() const { return *p; } const T *operator->() const { return p; } const T &operator*() const { return *p; } operator const T &() const { return *p; }
    template <class U = T> auto size() const -> decltype(std::declval<const U &>().size()) { return p->size(); } template <class U = T> auto empty() const -> decltype(std::declval<const U &>().empty()) { return p->empty(); }
    template <class U = T> auto operator[](std::size_t i) const -> decltype(std::declval<const U &>()[i]) { return (*p)[i]; } template <class U = T> auto begin() const -> decltype(std::declval<const U &>().begin()) { return p->begin(); } template <class U = T> auto end() const -> decltype(std::declval<const U &>().end()) { return p->end(); }
};
template <class T> class WriteAccessor<sofa::core::objectmodel::Data<T>> {
protected:
    T *p;
public:
    using D = sofa::core::objectmodel::Data<T>; using container_type = T;
    WriteAccessor(D &d) : p(d.beginEdit()) {} WriteAccessor(D *d) : p(d->beginEdit()) {}
    T &wref() { return *p; } const T &ref() const { return *p; } T *operator->() { return p; } const T *operator->() const { return p; } T &operator*() { return *p; } operator T &() { return *p; } operator const T &() const { return *p; }
    template <class U = T> auto size() const -> decltype(std::declval<const U &>().size()) { return p->size(); } template <class U = T> auto empty() const -> decltype(std::declval<const U &>().empty()) { return p->empty(); }
    template <class U = T> auto operator[](std::size_t i) -> decltype(std::declval<U &>()[i]) { return (*p)[i]; } template <class U = T> auto operator[](std::size_t i) const -> decltype(std::declval<const U &>()[i]) { return (*p)[i]; }
    auto begin() { return p->begin(); } auto end() { return p->end(); }
    template <class N> void resize(N n) { p->resize(n); } void clear() { p->clear(); } template <class N> void reserve(N n) { p->reserve(n); } template <class V> void push_back(V &&v) { p->push_back(std::forward<V>(v)); } template <class... V> void emplace_back(V &&...v) { p->emplace_back(std::forward<V>(v)...); }
    template <class U> void operator=(const U &v) { *p = v; }
};
template <class T> class WriteOnlyAccessor : public WriteAccessor<T> { public: using WriteAccessor<T>::WriteAccessor; template <class U> void operator=(const U &v) { *this->p = v; } };
template <class T> ReadAccessor<sofa::core::objectmodel::Data<T>> getReadAccessor(const sofa::core::objectmodel::Data<T> &d) { return {d}; } template <class T> WriteAccessor<sofa::core::objectmodel::Data<T>> getWriteAccessor(sofa::core::objectmodel::Data<T> &d) { return {d}; } template <class T> WriteOnlyAccessor<sofa::core::objectmodel::Data<T>> getWriteOnlyAccessor(sofa::core::objectmodel::Data<T> &d) { return {d}; }
class AdvancedTimer { public: template <class... A> static void stepBegin(const A &...) {} template <class... A> static void stepEnd(const A &...) {} template <class... A> static void stepNext(const A &...) {} static std::map<std::string, double> &vals() { static std::map<std::string, double> m; return m; } static void valSet(const char *n, double v) { vals()[n] = v; } };
struct ScopedAdvancedTimer { template <class... A> explicit ScopedAdvancedTimer(const A &...) {} ~ScopedAdvancedTimer() {} };
class OptionsGroup {
    std::vector<std::string> names; unsigned sel = 0;
public:
    OptionsGroup() = default; OptionsGroup(const std::vector<std::string> &n) : names(n) {} OptionsGroup(int n, ...) { (void)n; }
    template <class... S, std::enable_if_t<(sizeof...(S) > 0) && (std::is_convertible_v<S, std::string> && ...), int> = 0> static OptionsGroup make(S... s) { return OptionsGroup(std::vector<std::string>{s...}); }
    void setSelectedItem(unsigned i) { if (i < names.size()) sel = i; } void setSelectedItem(const std::string &s) { for (unsigned i = 0; i < names.size(); ++i) if (names[i] == s) sel = i; }
    unsigned getSelectedId() const { return sel; } const std::string &getSelectedItem() const { static const std::string e; return sel < names.size() ? names[sel] : e; } std::size_t size() const { return names.size(); } const std::string &operator[](std::size_t i) const { return names[i]; }
};
namespace logging {
struct ComponentInfo { using SPtr = std::shared_ptr<ComponentInfo>; std::string n; explicit ComponentInfo(const std::string &s = {}) : n(s) {} }; struct Message { enum Class { Runtime, Deprecated, Dev }; };
struct MessageDispatcher { static sofa::shim::Msg info(Message::Class, const ComponentInfo::SPtr &, int) { return sofa::shim::Msg(3); } static sofa::shim::Msg warning(Message::Class, const ComponentInfo::SPtr &, int) { return sofa::shim::Msg(1); } static sofa::shim::Msg error(Message::Class, const ComponentInfo::SPtr &, int) { return sofa::shim::Msg(2); } };
}
namespace visual {
// records what a component asks to be drawn
class DrawTool {
public:
    std::vector<std::vector<sofa::type::Vector3>> triangles, lines, points; int depth = 0, polygon = 0;
    void saveLastState() { ++depth; } void restoreLastState() { --depth; } void setPolygonMode(int, bool on) { polygon = on; } void disableLighting() {} void enableLighting() {} void enableDepthTest() {} void disableDepthTest() {}
    template <class V, class... A> void drawTriangles(const V &v, const A &...) { triangles.emplace_back(v.begin(), v.end()); } template <class V, class... A> void drawQuads(const V &v, const A &...) { triangles.emplace_back(v.begin(), v.end()); }
    template <class V, class... A> void drawLines(const V &v, const A &...) { lines.emplace_back(v.begin(), v.end()); } template <class V, class... A> void drawPoints(const V &v, const A &...) { points.emplace_back(v.begin(), v.end()); }
    template <class... A> void drawHexahedra(const A &...) {} template <class... A> void drawScaledHexahedra(const A &...) {} template <class... A> void drawSphere(const A &...) {} template <class... A> void drawSpheres(const A &...) {} template <class... A> void drawArrow(const A &...) {} template <class... A> void drawLine(const A &...) {} template <class... A> void drawPoint(const A &...) {} template <class... A> void setMaterial(const A &...) {}
};
}
}
namespace sofa::core::visual {
using DrawTool = sofa::helper::visual::DrawTool;
struct DisplayFlags { bool ff = true, wire = false, maps = true, beh = true, vis = true; bool getShowForceFields() const { return ff; } bool getShowWireFrame() const { return wire; } bool getShowMappings() const { return maps; } bool getShowBehaviorModels() const { return beh; } bool getShowVisual() const { return vis; } bool getShowVisualModels() const { return vis; } };
class VisualParams : public sofa::core::ExecParams { public: mutable DrawTool tool; DisplayFlags flags; const DisplayFlags &displayFlags() const { return flags; } DrawTool *drawTool() const { return &tool; } };
}
namespace sofa::core {
// ------------------------------------------------------------------ states
class BaseState : public virtual objectmodel::BaseObject { public: using SPtr = sptr<BaseState>; virtual sofa::Size getSize() const = 0; virtual void resize(sofa::Size) = 0; };
template <class DT> class State : public virtual BaseState {
public:
    using SPtr = sptr<State<DT>>; using DataTypes = DT; using VecCoord = typename DT::VecCoord; using VecDeriv = typename DT::VecDeriv; using MatrixDeriv = typename DT::MatrixDeriv;
    using RA = sofa::helper::ReadAccessor<Data<VecCoord>>; using RD = sofa::helper::ReadAccessor<Data<VecDeriv>>; using WO = sofa::helper::WriteOnlyAccessor<Data<VecCoord>>; using WA = sofa::helper::WriteAccessor<Data<VecCoord>>; using WD = sofa::helper::WriteAccessor<Data<VecDeriv>>;
    virtual Data<VecCoord> *write(VecCoordId) = 0; virtual const Data<VecCoord> *read(ConstVecCoordId) const = 0; virtual Data<VecDeriv> *write(VecDerivId) = 0; virtual const Data<VecDeriv> *read(ConstVecDerivId) const = 0; virtual Data<MatrixDeriv> *write(MatrixDerivId) = 0; virtual const Data<MatrixDeriv> *read(ConstMatrixDerivId) const = 0;
    RA readPositions() const { return RA(read(ConstVecCoordId::position())); } RA readRestPositions() const { return RA(read(ConstVecCoordId::restPosition())); } RD readForces() const { return RD(read(ConstVecDerivId::force())); } RD readVelocities() const { return RD(read(ConstVecDerivId::velocity())); }
    WA writePositions() { return WA(write(VecCoordId::position())); } WA writeRestPositions() { return WA(write(VecCoordId::restPosition())); } WO writeOnlyRestPositions() { return WO(write(VecCoordId::restPosition())); } WD writeForces() { return WD(write(VecDerivId::force())); } WD writeVelocities() { return WD(write(VecDerivId::velocity())); }
};
namespace behavior {
class BaseMechanicalState : public virtual BaseState {
public:
    using SPtr = sptr<BaseMechanicalState>;
    virtual sofa::Size getMatrixSize() const = 0; virtual void copyToBaseVector(sofa::defaulttype::BaseVector *dst, ConstVecId src, unsigned &offset) = 0; virtual void copyFromBaseVector(VecId dst, const sofa::defaulttype::BaseVector *src, unsigned &offset) = 0;
    virtual void vAlloc(VecId v) = 0; virtual void vClear(VecId v) = 0; virtual void vOp(VecId v, ConstVecId a, ConstVecId b, SReal f) = 0; virtual SReal vDot(ConstVecId a, ConstVecId b) = 0; virtual void accumulateForce(const ExecParams *, VecDerivId) {}
};
template <class DT> class MechanicalState : public BaseMechanicalState, public State<DT> { public: using SPtr = sptr<MechanicalState<DT>>; std::string getTemplateName() const override { return DT::Name(); } };
}
}
namespace sofa::component::container {
template <class DT> class MechanicalObject : public sofa::core::behavior::MechanicalState<DT> {
public:
    SOFA_CLASS(MechanicalObject, sofa::core::behavior::MechanicalState<DT>);
    template <class T> using Data = sofa::core::objectmodel::Data<T>; using VC = typename DT::VecCoord; using VD = typename DT::VecDeriv; using MD = typename DT::MatrixDeriv;
    std::map<unsigned, std::unique_ptr<Data<VC>>> xs; std::map<unsigned, std::unique_ptr<Data<VD>>> vs; std::map<unsigned, std::unique_ptr<Data<MD>>> ms; sofa::Size n = 0; static constexpr int N = DT::spatial_dimensions;
    MechanicalObject() { const char *xn[] = {"", "position", "rest_position", "free_position", "reset_position"}, *vn[] = {"", "velocity", "reset_velocity", "free_velocity", "derivX", "force", "externalForce", "dx", "dforce"}; for (unsigned i = 1; i <= 4; ++i) { xs[i] = std::make_unique<Data<VC>>(); this->addData(xs[i].get(), xn[i]); } for (unsigned i = 1; i <= 8; ++i) { vs[i] = std::make_unique<Data<VD>>(); this->addData(vs[i].get(), vn[i]); } }
    sofa::Size getSize() const override { return n; } void resize(sofa::Size k) override { n = k; xs[1]->beginEdit()->resize(k); for (unsigned i : {1u, 5u, 7u, 8u}) vs[i]->beginEdit()->resize(k); }
    Data<VC> *write(sofa::core::VecCoordId i) override { auto &p = xs[i.index]; if (!p) p = std::make_unique<Data<VC>>(); return p.get(); } const Data<VC> *read(sofa::core::ConstVecCoordId i) const override { auto it = xs.find(i.index); if (it == xs.end()) throw std::logic_error("read of an unallocated coordinate vector"); return it->second.get(); }
    Data<VD> *write(sofa::core::VecDerivId i) override { auto &p = vs[i.index]; if (!p) p = std::make_unique<Data<VD>>(); return p.get(); } const Data<VD> *read(sofa::core::ConstVecDerivId i) const override { auto it = vs.find(i.index); if (it == vs.end()) throw std::logic_error("read of an unallocated derivative vector"); return it->second.get(); }
    Data<MD> *write(sofa::core::MatrixDerivId i) override { auto &p = ms[i.index]; if (!p) p = std::make_unique<Data<MD>>(); return p.get(); } const Data<MD> *read(sofa::core::ConstMatrixDerivId i) const override { return ms.at(i.index).get(); }
    sofa::Size getMatrixSize() const override { return n * N; }
    template <class F> void each(sofa::core::VecId v, F &&f) { if (v.type == sofa::core::V_COORD) f(*write(sofa::core::VecCoordId(v))->beginEdit()); else f(*write(sofa::core::VecDerivId(v))->beginEdit()); }
    const sofa::type::vector<typename DT::Coord> &vec(sofa::core::ConstVecId v) const { return v.type == sofa::core::V_COORD ? read(sofa::core::ConstVecCoordId(v))->getValue() : read(sofa::core::ConstVecDerivId(v))->getValue(); }
    void copyToBaseVector(sofa::defaulttype::BaseVector *dst, sofa::core::ConstVecId src, unsigned &off) override { auto &v = vec(src); for (sofa::Size i = 0; i < n; ++i) for (int c = 0; c < N; ++c) dst->set(off + i * N + c, v.at(i)[c]); off += n * N; }
    void copyFromBaseVector(sofa::core::VecId d, const sofa::defaulttype::BaseVector *src, unsigned &off) override { each(d, [&](auto &v) { v.resize(n); for (sofa::Size i = 0; i < n; ++i) for (int c = 0; c < N; ++c) v[i][c] = src->element(off + i * N + c); }); off += n * N; }
    void vAlloc(sofa::core::VecId d) override { each(d, [&](auto &v) { v.resize(n); }); } void vClear(sofa::core::VecId d) override { each(d, [&](auto &v) { v.resize(n); for (auto &x : v) x.clear(); }); }
    void vOp(sofa::core::VecId d, sofa::core::ConstVecId a, sofa::core::ConstVecId b, SReal f) override { sofa::type::vector<typename DT::Coord> r(n); for (sofa::Size i = 0; i < n; ++i) { if (!a.isNull()) r[i] += vec(a).at(i); if (!b.isNull()) r[i] += vec(b).at(i) * f; } each(d, [&](auto &v) { v.assign(r.begin(), r.end()); }); }
    SReal vDot(sofa::core::ConstVecId a, sofa::core::ConstVecId b) override { SReal s = 0; for (sofa::Size i = 0; i < n; ++i) s += vec(a).at(i) * vec(b).at(i); return s; }
    // test convenience: size, positions and rest positions
    void setup(const VC &rest, const VC &pos) { resize((sofa::Size)pos.size()); xs[1]->setValue(pos); xs[2]->setValue(rest); }
};
}
namespace sofa::core {
// ------------------------------------------------------------------ behaviors
namespace behavior {
class MultiMatrixAccessor {
public:
    struct MatrixRef { sofa::defaulttype::BaseMatrix *matrix = nullptr; unsigned offset = 0; bool operator!() const { return !matrix; } explicit operator bool() const { return matrix; } sofa::defaulttype::BaseMatrix *operator->() const { return matrix; } };
    virtual ~MultiMatrixAccessor() = default; virtual sofa::Size getGlobalDimension() const = 0; virtual int getGlobalOffset(const BaseMechanicalState *) const = 0; virtual MatrixRef getMatrix(const BaseMechanicalState *) const = 0;
};
class BaseForceField : public virtual objectmodel::BaseObject {
public:
    using SPtr = sptr<BaseForceField>; objectmodel::Data<SReal> rayleighStiffness; BaseForceField() : rayleighStiffness(initData(&rayleighStiffness, SReal(0), "rayleighStiffness", "")) {}
    virtual void addForce(const MechanicalParams *, MultiVecDerivId) = 0; virtual void addDForce(const MechanicalParams *, MultiVecDerivId) = 0; virtual void addMBKdx(const MechanicalParams *mp, MultiVecDerivId df) { if (mp->kFactorIncludingRayleighDamping(rayleighStiffness.getValue()) != 0.0 || mp->bFactor() != 0.0) addDForce(mp, df); }
    virtual void addKToMatrix(const MechanicalParams *, const MultiMatrixAccessor *) = 0; virtual void addBToMatrix(const MechanicalParams *, const MultiMatrixAccessor *) {}
    virtual void addMBKToMatrix(const MechanicalParams *mp, const MultiMatrixAccessor *m) { if (mp->kFactorIncludingRayleighDamping(rayleighStiffness.getValue()) != 0.0) addKToMatrix(mp, m); if (mp->bFactor() != 0.0) addBToMatrix(mp, m); }
    virtual SReal getPotentialEnergy(const MechanicalParams * = MechanicalParams::defaultInstance()) const = 0;
};
template <class DT> class ForceField : public BaseForceField {
public:
    using SPtr = sptr<ForceField<DT>>; using DataTypes = DT; using VecCoord = typename DT::VecCoord; using VecDeriv = typename DT::VecDeriv; using DataVecCoord = objectmodel::Data<VecCoord>; using DataVecDeriv = objectmodel::Data<VecDeriv>;
    objectmodel::SingleLink<ForceField<DT>, MechanicalState<DT>, objectmodel::BaseLink::FLAG_STRONGLINK> mstate; ForceField(MechanicalState<DT> *m = nullptr) : mstate(initLink("mstate", "")) { if (m) mstate.set(m); }
    MechanicalState<DT> *getMState() { return mstate.get(); } const MechanicalState<DT> *getMState() const { return mstate.get(); }
    void init() override { if (!mstate.get()) mstate.set(dynamic_cast<MechanicalState<DT> *>(this->getContext()->getMechanicalState())); }
    void addForce(const MechanicalParams *mp, MultiVecDerivId f) override { if (mp && mstate.get()) addForce(mp, *mstate->write(f.getId(mstate.get())), *mstate->read(mp->x().getId(mstate.get())), *mstate->read(mp->v().getId(mstate.get()))); }
    virtual void addForce(const MechanicalParams *, DataVecDeriv &, const DataVecCoord &, const DataVecDeriv &) = 0;
    void addDForce(const MechanicalParams *mp, MultiVecDerivId df) override { if (mp && mstate.get()) addDForce(mp, *mstate->write(df.getId(mstate.get())), *mstate->read(mp->dx().getId(mstate.get()))); }
    virtual void addDForce(const MechanicalParams *, DataVecDeriv &, const DataVecDeriv &) = 0;
    void addKToMatrix(const MechanicalParams *mp, const MultiMatrixAccessor *a) override { auto r = a->getMatrix(mstate.get()); if (r) addKToMatrix(r.matrix, mp->kFactorIncludingRayleighDamping(rayleighStiffness.getValue()), r.offset); }
    virtual void addKToMatrix(sofa::defaulttype::BaseMatrix *, SReal, unsigned int &) {}
    SReal getPotentialEnergy(const MechanicalParams *mp = MechanicalParams::defaultInstance()) const override { return mstate.get() ? getPotentialEnergy(mp, *mstate->read(mp->x().getId(mstate.get()))) : 0; }
    virtual SReal getPotentialEnergy(const MechanicalParams *, const DataVecCoord &) const = 0;
    template <class T> static bool canCreate(T *o, objectmodel::BaseContext *c, objectmodel::BaseObjectDescription *a) { if (!dynamic_cast<MechanicalState<DT> *>(c->getMechanicalState())) { a->logError(std::string("No mechanical state with the datatype '") + DT::Name() + "' found in the context node."); return false; } return objectmodel::BaseObject::canCreate(o, c, a); }
    std::string getTemplateName() const override { return DT::Name(); } static std::string templateName(const ForceField<DT> * = nullptr) { return DT::Name(); }
};
class BaseProjectiveConstraintSet : public virtual objectmodel::BaseObject { public: virtual void projectResponse(const MechanicalParams *, MultiVecDerivId) = 0; virtual void applyConstraint(const MechanicalParams *, const MultiMatrixAccessor *) {} };
class ConstraintSolver : public virtual objectmodel::BaseObject { public: virtual void solveConstraint(const ConstraintParams *, MultiVecId) = 0; };
class BaseMass : public virtual objectmodel::BaseObject {};
class LinearSolver : public virtual objectmodel::BaseObject { public: using SPtr = sptr<LinearSolver>; virtual void resetSystem() {} virtual void setSystemMBKMatrix(const MechanicalParams *) = 0; virtual void setSystemRHVector(MultiVecDerivId) = 0; virtual void setSystemLHVector(MultiVecDerivId) = 0; virtual void solveSystem() = 0; virtual void invertSystem() {} };
class OdeSolver : public virtual objectmodel::BaseObject { public: using SPtr = sptr<OdeSolver>; virtual void solve(const ExecParams *, SReal dt, MultiVecCoordId x, MultiVecDerivId v) = 0; virtual SReal getIntegrationFactor(int, int) const { return 0; } virtual SReal getSolutionIntegrationFactor(int) const { return 0; } virtual SReal getVelocityIntegrationFactor() const { return 1.0; } virtual SReal getPositionIntegrationFactor() const { return getPositionIntegrationFactor(1.0); } virtual SReal getPositionIntegrationFactor(SReal) const { return 0; } };
}
class BaseMapping : public virtual objectmodel::BaseObject { public: using SPtr = sptr<BaseMapping>; virtual void apply(const MechanicalParams *, MultiVecCoordId, ConstMultiVecCoordId) = 0; virtual void applyJ(const MechanicalParams *, MultiVecDerivId, ConstMultiVecDerivId) = 0; virtual void applyJT(const MechanicalParams *, MultiVecDerivId, ConstMultiVecDerivId) = 0; virtual bool areForcesMapped() const { return true; } virtual bool areMatricesMapped() const { return false; } virtual bool isMechanical() const { return true; } };
template <class In, class Out> class Mapping : public BaseMapping {
public:
    using SPtr = sptr<Mapping<In, Out>>; using I = In; using O = Out; objectmodel::SingleLink<Mapping, State<In>, 0> fromModel; objectmodel::SingleLink<Mapping, State<Out>, 0> toModel; objectmodel::Data<bool> f_applyRestPosition;
    Mapping(State<In> *a = nullptr, State<Out> *b = nullptr) : fromModel(initLink("input", "")), toModel(initLink("output", "")), f_applyRestPosition(initData(&f_applyRestPosition, false, "applyRestPosition", "")) { fromModel.set(a); toModel.set(b); }
    State<In> *getFromModel() { return fromModel.get(); } State<Out> *getToModel() { return toModel.get(); } void setModels(State<In> *a, State<Out> *b) { fromModel.set(a); toModel.set(b); }
    using DIx = objectmodel::Data<typename In::VecCoord>; using DIv = objectmodel::Data<typename In::VecDeriv>; using DIm = objectmodel::Data<typename In::MatrixDeriv>; using DOx = objectmodel::Data<typename Out::VecCoord>; using DOv = objectmodel::Data<typename Out::VecDeriv>; using DOm = objectmodel::Data<typename Out::MatrixDeriv>;
    virtual void apply(const MechanicalParams *, DOx &, const DIx &) = 0; virtual void applyJ(const MechanicalParams *, DOv &, const DIv &) = 0; virtual void applyJT(const MechanicalParams *, DIv &, const DOv &) = 0; virtual void applyJT(const ConstraintParams *, DIm &, const DOm &) = 0;
    void apply(const MechanicalParams *mp, MultiVecCoordId o, ConstMultiVecCoordId i) override { auto *a = fromModel.get(); auto *b = toModel.get(); if (a && b) apply(mp, *b->write(o.getId(b)), *a->read(i.getId(a))); }
    void applyJ(const MechanicalParams *mp, MultiVecDerivId o, ConstMultiVecDerivId i) override { auto *a = fromModel.get(); auto *b = toModel.get(); if (a && b) applyJ(mp, *b->write(o.getId(b)), *a->read(i.getId(a))); }
    void applyJT(const MechanicalParams *mp, MultiVecDerivId i, ConstMultiVecDerivId o) override { auto *a = fromModel.get(); auto *b = toModel.get(); if (a && b) applyJT(mp, *a->write(i.getId(a)), *b->read(o.getId(b))); }
    void init() override { const MechanicalParams mp; BaseMapping *m = this; m->apply(&mp, VecCoordId::position(), ConstVecCoordId::position()); m->applyJ(&mp, VecDerivId::velocity(), ConstVecDerivId::velocity()); if (f_applyRestPosition.getValue()) m->apply(&mp, VecCoordId::restPosition(), ConstVecCoordId::restPosition()); }
    template <class T> static bool canCreate(T *o, objectmodel::BaseContext *c, objectmodel::BaseObjectDescription *a) { return objectmodel::BaseObject::canCreate(o, c, a); }
    std::string getTemplateName() const override { return std::string(In::Name()) + "," + Out::Name(); }
};
namespace objectmodel { inline BaseState *BaseContext::getState() const { return get<BaseState>(Local) ? get<BaseState>(Local) : nullptr; } inline behavior::BaseMechanicalState *BaseContext::getMechanicalState() const { return get<behavior::BaseMechanicalState>(SearchUp); } }
// ------------------------------------------------------------------ topology
namespace topology {
class Topology : public virtual objectmodel::BaseObject { public: using Index = sofa::Index; using PointID = Index; using EdgeID = Index; using HexaID = Index; using TetraID = Index; using TriangleID = Index; using QuadID = Index; using HexahedronID = Index; using TetrahedronID = Index; using Edge = sofa::type::fixed_array<PointID, 2>; using Triangle = sofa::type::fixed_array<PointID, 3>; using Quad = sofa::type::fixed_array<PointID, 4>; using Tetrahedron = sofa::type::fixed_array<PointID, 4>; using Hexahedron = sofa::type::fixed_array<PointID, 8>; };
class BaseMeshTopology : public Topology { public: using SPtr = sptr<BaseMeshTopology>; using SeqHexahedra = sofa::type::vector<Hexahedron>; using SeqTetrahedra = sofa::type::vector<Tetrahedron>; using SeqQuads = sofa::type::vector<Quad>; using SeqTriangles = sofa::type::vector<Triangle>; using SeqEdges = sofa::type::vector<Edge>; virtual const SeqHexahedra &getHexahedra() { static SeqHexahedra e; return e; } virtual const SeqTetrahedra &getTetrahedra() { static SeqTetrahedra e; return e; } sofa::Size getNbHexahedra() { return getHexahedra().size(); } sofa::Size getNbTetrahedra() { return getTetrahedra().size(); } const Hexahedron getHexahedron(sofa::Index i) { return getHexahedra()[i]; } const Tetrahedron getTetrahedron(sofa::Index i) { return getTetrahedra()[i]; } const Tetrahedron getTetra(sofa::Index i) { return getTetrahedra()[i]; } const Hexahedron getHexa(sofa::Index i) { return getHexahedra()[i]; } virtual const SeqEdges &getEdges() { static SeqEdges e; return e; } virtual const SeqTriangles &getTriangles() { static SeqTriangles e; return e; } virtual const SeqQuads &getQuads() { static SeqQuads e; return e; } sofa::Size getNbEdges() { return getEdges().size(); } sofa::Size getNbTriangles() { return getTriangles().size(); } sofa::Size getNbQuads() { return getQuads().size(); } const Edge getEdge(sofa::Index i) { return getEdges()[i]; } const Triangle getTriangle(sofa::Index i) { return getTriangles()[i]; } const Quad getQuad(sofa::Index i) { return getQuads()[i]; } };
class TopologyContainer : public BaseMeshTopology {}; using BaseTopology = BaseMeshTopology;
}
// ------------------------------------------------------------------ factory
struct FactoryEntry { std::string className, templateName, typeName; std::function<bool(objectmodel::BaseContext *, objectmodel::BaseObjectDescription *)> can; std::function<sptr<objectmodel::BaseObject>()> make; };
class ObjectFactory { public: static std::vector<FactoryEntry> &entries() { static std::vector<FactoryEntry> e; return e; } };
template <class T, class = void> struct shim_template { static std::string name() { return ""; } }; template <class T> struct shim_template<T, std::void_t<decltype(T::templateName((const T *)nullptr))>> { static std::string name() { return T::templateName((const T *)nullptr); } };
class RegisterObject { public: explicit RegisterObject(const std::string &) {} RegisterObject &addAlias(const std::string &) { return *this; } RegisterObject &addAuthor(const std::string &) { return *this; } template <class T> RegisterObject &add(bool = false) { FactoryEntry e; e.typeName = objectmodel::shim_type_name<T>(); e.className = objectmodel::shim_class_name(e.typeName); e.templateName = shim_template<T>::name(); e.can = [](objectmodel::BaseContext *c, objectmodel::BaseObjectDescription *a) { return T::canCreate((T *)nullptr, c, a); }; e.make = []() { return sptr<objectmodel::BaseObject>(objectmodel::New<T>().get()); }; ObjectFactory::entries().push_back(e); return *this; } operator int() const { return 1; } };
}
namespace sofa::component::topology {
using sofa::core::topology::BaseMeshTopology;
class MeshTopology : public BaseMeshTopology { public: SOFA_CLASS(MeshTopology, BaseMeshTopology); template <class T> using Data = sofa::core::objectmodel::Data<T>; Data<SeqHexahedra> d_hexa; Data<SeqTetrahedra> d_tetra; Data<SeqQuads> d_quads; Data<SeqTriangles> d_tri; Data<SeqEdges> d_edges; Data<sofa::type::vector<sofa::type::Vec<3, SReal>>> seqPoints; MeshTopology() : d_hexa(initData(&d_hexa, "hexahedra", "")), d_tetra(initData(&d_tetra, "tetrahedra", "")), d_quads(initData(&d_quads, "quads", "")), d_tri(initData(&d_tri, "triangles", "")), d_edges(initData(&d_edges, "edges", "")), seqPoints(initData(&seqPoints, "position", "")) {} const SeqEdges &getEdges() override { return d_edges.getValue(); } const SeqTriangles &getTriangles() override { return d_tri.getValue(); } const SeqQuads &getQuads() override { return d_quads.getValue(); } const SeqHexahedra &getHexahedra() override { return d_hexa.getValue(); } const SeqTetrahedra &getTetrahedra() override { return d_tetra.getValue(); } };
class PointSetTopologyContainer : public MeshTopology { public: SOFA_CLASS(PointSetTopologyContainer, MeshTopology); };
class EdgeSetTopologyContainer : public PointSetTopologyContainer { public: SOFA_CLASS(EdgeSetTopologyContainer, PointSetTopologyContainer); };
class TriangleSetTopologyContainer : public EdgeSetTopologyContainer { public: SOFA_CLASS(TriangleSetTopologyContainer, EdgeSetTopologyContainer); };
class TetrahedronSetTopologyContainer : public TriangleSetTopologyContainer { public: SOFA_CLASS(TetrahedronSetTopologyContainer, TriangleSetTopologyContainer); };
class QuadSetTopologyContainer : public EdgeSetTopologyContainer { public: SOFA_CLASS(QuadSetTopologyContainer, EdgeSetTopologyContainer); };
class HexahedronSetTopologyContainer : public QuadSetTopologyContainer { public: SOFA_CLASS(HexahedronSetTopologyContainer, QuadSetTopologyContainer); };
}
namespace sofa::component::linearsolver {
class DefaultMultiMatrixAccessor : public sofa::core::behavior::MultiMatrixAccessor {
    std::vector<std::pair<const sofa::core::behavior::BaseMechanicalState *, int>> s; sofa::Size dim = 0; sofa::defaulttype::BaseMatrix *g = nullptr;
public:
    void clear() { s.clear(); dim = 0; g = nullptr; } void addMechanicalState(const sofa::core::behavior::BaseMechanicalState *m) { s.emplace_back(m, (int)dim); dim += m->getMatrixSize(); } void setGlobalMatrix(sofa::defaulttype::BaseMatrix *m) { g = m; } void setupMatrices() {} void computeGlobalMatrix() {}
    sofa::Size getGlobalDimension() const override { return dim; } int getGlobalOffset(const sofa::core::behavior::BaseMechanicalState *m) const override { for (auto &p : s) if (p.first == m) return p.second; return -1; } MatrixRef getMatrix(const sofa::core::behavior::BaseMechanicalState *m) const override { MatrixRef r; int o = getGlobalOffset(m); if (o >= 0 && g) { r.matrix = g; r.offset = o; } return r; }
};
}
// ------------------------------------------------------------------ scene graph, visitors, operations
namespace sofa::simulation {
class Node : public sofa::core::objectmodel::BaseContext {
public:
    using SPtr = sofa::core::sptr<Node>; std::vector<SPtr> kids;
    std::size_t getNbParents() const { return m_parent ? 1 : 0; } Node *getFirstParent() const { return dynamic_cast<Node *>(m_parent); }
    Node *createChild(const std::string &n) { Node *c = new Node(); c->setName(n); c->m_parent = this; m_children.push_back(c); kids.emplace_back(c); return c; }
    sofa::core::BaseMapping *mapping() const { return get<sofa::core::BaseMapping>(Local); } sofa::core::behavior::BaseMechanicalState *state() const { return get<sofa::core::behavior::BaseMechanicalState>(Local); }
};
struct AnimateBeginEvent : sofa::core::objectmodel::Event { static bool checkEventType(const sofa::core::objectmodel::Event *e) { return dynamic_cast<const AnimateBeginEvent *>(e); } }; struct AnimateEndEvent : sofa::core::objectmodel::Event { static bool checkEventType(const sofa::core::objectmodel::Event *e) { return dynamic_cast<const AnimateEndEvent *>(e); } };
class BaseMechanicalVisitor {
public:
    enum Result { RESULT_CONTINUE, RESULT_PRUNE }; struct VisitorContext { Node *root = nullptr, *node = nullptr; SReal *nodeData = nullptr; };
    const sofa::core::ExecParams *params; explicit BaseMechanicalVisitor(const sofa::core::ExecParams *p) : params(p) {} virtual ~BaseMechanicalVisitor() = default;
    virtual const char *getClassName() const { return "Visitor"; } virtual std::string getInfos() const { return ""; } virtual bool isThreadSafe() const { return false; } virtual bool readNodeData() const { return false; } virtual bool writeNodeData() const { return false; }
    virtual bool stopAtMechanicalMapping(Node *, sofa::core::BaseMapping *) { return false; }
    virtual Result fwdMechanicalMapping(Node *, sofa::core::BaseMapping *) { return RESULT_CONTINUE; } virtual Result fwdMechanicalState(Node *, sofa::core::behavior::BaseMechanicalState *) { return RESULT_CONTINUE; } virtual Result fwdMechanicalState(VisitorContext *c, sofa::core::behavior::BaseMechanicalState *m) { return fwdMechanicalState(c->node, m); } virtual Result fwdMappedMechanicalState(Node *, sofa::core::behavior::BaseMechanicalState *) { return RESULT_CONTINUE; } virtual Result fwdMappedMechanicalState(VisitorContext *c, sofa::core::behavior::BaseMechanicalState *m) { return fwdMappedMechanicalState(c->node, m); }
    virtual Result fwdForceField(Node *, sofa::core::behavior::BaseForceField *) { return RESULT_CONTINUE; } virtual Result fwdProjectiveConstraintSet(Node *, sofa::core::behavior::BaseProjectiveConstraintSet *) { return RESULT_CONTINUE; }
    virtual void bwdMechanicalState(Node *, sofa::core::behavior::BaseMechanicalState *) {} virtual void bwdMechanicalMapping(Node *, sofa::core::BaseMapping *) {} virtual void bwdProjectiveConstraintSet(Node *, sofa::core::behavior::BaseProjectiveConstraintSet *) {}
    void visit(Node *root, Node *n) {
        using C = sofa::core::objectmodel::BaseContext; auto *map = n->mapping(); auto *st = n->state(); bool go = true;
        if (map) { if (stopAtMechanicalMapping(n, map)) go = false; else if (fwdMechanicalMapping(n, map) == RESULT_PRUNE) go = false; }
        if (go) { VisitorContext vc{root, n, nullptr}; if (st && (map ? fwdMappedMechanicalState(&vc, st) : fwdMechanicalState(&vc, st)) == RESULT_PRUNE) return; for (auto *f : n->getObjects<sofa::core::behavior::BaseForceField>(C::Local)) fwdForceField(n, f); for (auto *c : n->getObjects<sofa::core::behavior::BaseProjectiveConstraintSet>(C::Local)) fwdProjectiveConstraintSet(n, c); for (auto &k : n->kids) visit(root, k.get()); for (auto *c : n->getObjects<sofa::core::behavior::BaseProjectiveConstraintSet>(C::Local)) bwdProjectiveConstraintSet(n, c); if (st) bwdMechanicalState(n, st); if (map) bwdMechanicalMapping(n, map); }
    }
    void execute(sofa::core::objectmodel::BaseContext *c, bool = false) { auto *n = dynamic_cast<Node *>(c); visit(n, n); }
};
class MechanicalVisitor : public BaseMechanicalVisitor { public: const sofa::core::MechanicalParams *mparams; explicit MechanicalVisitor(const sofa::core::MechanicalParams *p) : BaseMechanicalVisitor(p), mparams(p) {} };
namespace mechanicalvisitor {
using namespace sofa::core; using namespace sofa::core::behavior; using MV = MechanicalVisitor;
class MechanicalResetForceVisitor : public MV { MultiVecDerivId r; bool om; public: MechanicalResetForceVisitor(const MechanicalParams *p, MultiVecDerivId r, bool onlyMapped = false) : MV(p), r(r), om(onlyMapped) {} Result fwdMechanicalState(Node *, BaseMechanicalState *m) override { if (!om) m->vClear(r.getId(m)); return RESULT_CONTINUE; } Result fwdMappedMechanicalState(Node *, BaseMechanicalState *m) override { m->vClear(r.getId(m)); return RESULT_CONTINUE; } };
class MechanicalComputeForceVisitor : public MV { MultiVecDerivId r; bool acc; public: MechanicalComputeForceVisitor(const MechanicalParams *p, MultiVecDerivId r, bool accumulate = true, bool = true) : MV(p), r(r), acc(accumulate) {} Result fwdForceField(Node *, BaseForceField *f) override { f->addForce(mparams, r); return RESULT_CONTINUE; } void bwdMechanicalMapping(Node *, BaseMapping *m) override { if (acc && m->areForcesMapped()) m->applyJT(mparams, r, r); } };
class MechanicalApplyConstraintsVisitor : public MV { MultiVecDerivId r; public: MechanicalApplyConstraintsVisitor(const MechanicalParams *p, MultiVecDerivId r, void * = nullptr) : MV(p), r(r) {} void bwdProjectiveConstraintSet(Node *, BaseProjectiveConstraintSet *c) override { c->projectResponse(mparams, r); } };
class MechanicalMultiVectorToBaseVectorVisitor : public MV { ConstMultiVecId s; sofa::defaulttype::BaseVector *d; const MultiMatrixAccessor *a; public: MechanicalMultiVectorToBaseVectorVisitor(const MechanicalParams *p, ConstMultiVecId s, sofa::defaulttype::BaseVector *d, const MultiMatrixAccessor *a) : MV(p), s(s), d(d), a(a) {} Result fwdMechanicalState(Node *, BaseMechanicalState *m) override { int o = a->getGlobalOffset(m); if (o >= 0) { unsigned u = o; m->copyToBaseVector(d, s.getId(m), u); } return RESULT_CONTINUE; } };
class MechanicalMultiVectorFromBaseVectorVisitor : public MV { MultiVecId d; const sofa::defaulttype::BaseVector *s; const MultiMatrixAccessor *a; public: MechanicalMultiVectorFromBaseVectorVisitor(const MechanicalParams *p, MultiVecId d, const sofa::defaulttype::BaseVector *s, const MultiMatrixAccessor *a) : MV(p), d(d), s(s), a(a) {} Result fwdMechanicalState(Node *, BaseMechanicalState *m) override { int o = a->getGlobalOffset(m); if (o >= 0) { unsigned u = o; m->copyFromBaseVector(d.getId(m), s, u); } return RESULT_CONTINUE; } };
class MechanicalVOpVisitor : public MV { MultiVecId v; ConstMultiVecId a, b; SReal f; public: MechanicalVOpVisitor(const MechanicalParams *p, MultiVecId v, ConstMultiVecId a = ConstMultiVecId(), ConstMultiVecId b = ConstMultiVecId(), SReal f = 1.0) : MV(p), v(v), a(a), b(b), f(f) {} Result fwdMechanicalState(Node *, BaseMechanicalState *m) override { m->vOp(v.getId(m), a.getId(m), b.getId(m), f); return RESULT_CONTINUE; } bool stopAtMechanicalMapping(Node *, BaseMapping *) override { return true; } };
class MechanicalPropagateOnlyPositionAndVelocityVisitor : public MV { public: explicit MechanicalPropagateOnlyPositionAndVelocityVisitor(const MechanicalParams *p, SReal = 0) : MV(p) {} Result fwdMechanicalMapping(Node *, BaseMapping *m) override { m->apply(mparams, VecCoordId::position(), ConstVecCoordId::position()); m->applyJ(mparams, VecDerivId::velocity(), ConstVecDerivId::velocity()); return RESULT_CONTINUE; } };
class MechanicalAddMBKdxVisitor : public MV { MultiVecDerivId r; bool acc; public: MechanicalAddMBKdxVisitor(const MechanicalParams *p, MultiVecDerivId r, bool accumulate = true) : MV(p), r(r), acc(accumulate) {} Result fwdForceField(Node *, BaseForceField *f) override { f->addMBKdx(mparams, r); return RESULT_CONTINUE; } void bwdMechanicalMapping(Node *, BaseMapping *m) override { if (acc) m->applyJT(mparams, r, r); } };
}
namespace common {
using namespace sofa::core; using namespace sofa::core::behavior; using Ctx = sofa::core::objectmodel::BaseContext;
inline unsigned next_vec() { static unsigned n = 100; return n++; }
template <class F> struct StateVisitor : BaseMechanicalVisitor { F f; bool mapped; StateVisitor(F f, bool m) : BaseMechanicalVisitor(nullptr), f(f), mapped(m) {} Result fwdMechanicalState(Node *, BaseMechanicalState *m) override { f(m); return RESULT_CONTINUE; } Result fwdMappedMechanicalState(Node *, BaseMechanicalState *m) override { if (mapped) f(m); return RESULT_CONTINUE; } };
template <class F> void each_state(Ctx *c, bool mapped, F f) { StateVisitor<F>(f, mapped).execute(c); }
class VectorOperations {
    SReal result = 0;
public:
    const ExecParams *params; Ctx *ctx; VectorOperations(const ExecParams *p, Ctx *c, bool = false) : params(p), ctx(c) {}
    void v_alloc(MultiVecDerivId &v) { v = MultiVecDerivId(VecDerivId(next_vec())); each_state(ctx, true, [&](auto *m) { m->vAlloc(VecId(v.getId(m))); m->vClear(VecId(v.getId(m))); }); } void v_alloc(MultiVecCoordId &v) { v = MultiVecCoordId(VecCoordId(next_vec())); each_state(ctx, true, [&](auto *m) { m->vAlloc(VecId(v.getId(m))); }); }
    void v_realloc(MultiVecDerivId &v, bool = false, bool propagate = false) { if (v.isNull()) v = MultiVecDerivId(VecDerivId(next_vec())); each_state(ctx, propagate, [&](auto *m) { m->vAlloc(VecId(v.getId(m))); }); } void v_realloc(MultiVecCoordId &v, bool = false, bool propagate = false) { if (v.isNull()) v = MultiVecCoordId(VecCoordId(next_vec())); each_state(ctx, propagate, [&](auto *m) { m->vAlloc(VecId(v.getId(m))); }); }
    void v_clear(MultiVecId v) { each_state(ctx, false, [&](auto *m) { m->vClear(v.getId(m)); }); } void v_eq(MultiVecId v, ConstMultiVecId a) { each_state(ctx, false, [&](auto *m) { m->vOp(v.getId(m), a.getId(m), ConstVecId(), 1); }); } void v_eq(MultiVecId v, ConstMultiVecId a, SReal f) { each_state(ctx, false, [&](auto *m) { m->vOp(v.getId(m), ConstVecId(), a.getId(m), f); }); }
    void v_peq(MultiVecId v, ConstMultiVecId a, SReal f = 1.0) { each_state(ctx, false, [&](auto *m) { m->vOp(v.getId(m), v.getId(m), a.getId(m), f); }); } void v_op(MultiVecId v, ConstMultiVecId a, ConstMultiVecId b, SReal f = 1.0) { each_state(ctx, false, [&](auto *m) { m->vOp(v.getId(m), a.getId(m), b.getId(m), f); }); } void v_teq(MultiVecId v, SReal f) { each_state(ctx, false, [&](auto *m) { m->vOp(v.getId(m), ConstVecId(), v.getId(m), f); }); }
    void v_dot(ConstMultiVecId a, ConstMultiVecId b) { result = 0; each_state(ctx, false, [&](auto *m) { result += m->vDot(a.getId(m), b.getId(m)); }); } SReal finish() { return result; }
};
struct VisitorExecuteFunc { Ctx &ctx; explicit VisitorExecuteFunc(Ctx &c) : ctx(c) {} template <class V> void operator()(V &&v) { v.execute(&ctx); } };
class MechanicalOperations {
public:
    MechanicalParams mparams; Ctx *ctx; VisitorExecuteFunc executeVisitor; MechanicalOperations(const MechanicalParams *p, Ctx *c, bool = false) : mparams(*p), ctx(c), executeVisitor(*c) {} MechanicalOperations(const ExecParams *p, Ctx *c, bool = false) : mparams(*p), ctx(c), executeVisitor(*c) {}
    MechanicalParams *operator->() { return &mparams; }
    void getMatrixDimension(sofa::Size *nr, sofa::Size *, sofa::core::behavior::MultiMatrixAccessor *a) { auto *d = dynamic_cast<sofa::component::linearsolver::DefaultMultiMatrixAccessor *>(a); each_state(ctx, false, [&](auto *m) { if (d) d->addMechanicalState(m); if (nr) *nr += m->getMatrixSize(); }); }
    void propagateDx(MultiVecDerivId dx) { struct V : MechanicalVisitor { MultiVecDerivId d; V(const MechanicalParams *p, MultiVecDerivId d) : MechanicalVisitor(p), d(d) {} Result fwdMechanicalMapping(Node *, BaseMapping *m) override { m->applyJ(mparams, d, d); return RESULT_CONTINUE; } }; each_state(ctx, true, [&](auto *m) { m->vAlloc(dx.getId(m)); }); V(&mparams, dx).execute(ctx); }
    void propagateDxAndResetDf(MultiVecDerivId dx, MultiVecDerivId df) { mparams.setDx(dx); mparams.setDf(df); propagateDx(dx); mechanicalvisitor::MechanicalResetForceVisitor(&mparams, df).execute(ctx); }
    void addMBKdx(MultiVecDerivId df, SReal m, SReal b, SReal k, bool clear = true, bool accumulate = true) { mparams.setDf(df); if (clear) mechanicalvisitor::MechanicalResetForceVisitor(&mparams, df, true).execute(ctx); mparams.setMFactor(m); mparams.setBFactor(b); mparams.setKFactor(k); mechanicalvisitor::MechanicalAddMBKdxVisitor(&mparams, df, accumulate).execute(ctx); }
    void projectResponse(MultiVecDerivId d) { mechanicalvisitor::MechanicalApplyConstraintsVisitor(&mparams, d).execute(ctx); }
    void computeForce(MultiVecDerivId f, bool clear = true, bool accumulate = true) { mparams.setF(f); if (clear) mechanicalvisitor::MechanicalResetForceVisitor(&mparams, f).execute(ctx); mechanicalvisitor::MechanicalComputeForceVisitor(&mparams, f, accumulate).execute(ctx); }
    void multiVector2BaseVector(ConstMultiVecId s, sofa::defaulttype::BaseVector *d, const MultiMatrixAccessor *a) { mechanicalvisitor::MechanicalMultiVectorToBaseVectorVisitor(&mparams, s, d, a).execute(ctx); } void baseVector2MultiVector(const sofa::defaulttype::BaseVector *s, MultiVecId d, const MultiMatrixAccessor *a) { mechanicalvisitor::MechanicalMultiVectorFromBaseVectorVisitor(&mparams, d, s, a).execute(ctx); }
    void solveConstraint(MultiVecId v, ConstraintParams::ConstOrder o) { ConstraintParams c(mparams); c.setOrder(o); for (auto *s : ctx->getObjects<ConstraintSolver>(Ctx::Local)) s->solveConstraint(&c, v); }
    LinearSolver *lin() { return ctx->get<LinearSolver>(Ctx::SearchDown); }
    void m_setSystemMBKMatrix(SReal m, SReal b, SReal k) { mparams.setMFactor(m); mparams.setBFactor(b); mparams.setKFactor(k); if (auto *s = lin()) s->setSystemMBKMatrix(&mparams); } void m_resetSystem() { if (auto *s = lin()) s->resetSystem(); } void m_setSystemRHVector(MultiVecDerivId v) { if (auto *s = lin()) s->setSystemRHVector(v); } void m_setSystemLHVector(MultiVecDerivId v) { if (auto *s = lin()) s->setSystemLHVector(v); } void m_solveSystem() { if (auto *s = lin()) s->solveSystem(); }
};
}
}
namespace sofa::core::behavior {
template <class Id> struct shim_const_id; template <VecType T> struct shim_const_id<TMultiVecId<T, V_WRITE>> { using type = TMultiVecId<T, V_READ>; }; template <class Id> using shim_const_id_t = typename shim_const_id<Id>::type;
template <class Id> class TMultiVec {
protected:
    sofa::simulation::common::VectorOperations *vop; Id v; bool dyn = false;
public:
    explicit TMultiVec(sofa::simulation::common::VectorOperations *o = nullptr) : vop(o), dyn(true) { if (vop) vop->v_alloc(v); } TMultiVec(sofa::simulation::common::VectorOperations *o, Id i) : vop(o), v(i) {} TMultiVec(const TMultiVec &) = delete;
    operator Id() const { return v; } operator shim_const_id_t<Id>() const { return v; } operator ConstMultiVecId() const { return v; } operator MultiVecId() const { return v; } const Id &id() const { return v; } void setOps(sofa::simulation::common::VectorOperations *o) { vop = o; } void realloc(sofa::simulation::common::VectorOperations *o, bool a = false, bool p = false) { vop = o; vop->v_realloc(v, a, p); }
    void clear() { vop->v_clear(v); } void eq(ConstMultiVecId a) { vop->v_eq(v, a); } void eq(ConstMultiVecId a, ConstMultiVecId b, SReal f = 1.0) { vop->v_op(v, a, b, f); } void peq(ConstMultiVecId a, SReal f = 1.0) { vop->v_peq(v, a, f); } void teq(SReal f) { vop->v_teq(v, f); } SReal dot(ConstMultiVecId a) const { vop->v_dot(v, a); return vop->finish(); } SReal norm() const { return std::sqrt(dot(v)); } void operator=(const TMultiVec &o) { eq(ConstMultiVecId(o.v)); }
};
using MultiVecDeriv = TMultiVec<MultiVecDerivId>; using MultiVecCoord = TMultiVec<MultiVecCoordId>;
struct MechanicalMatrix { SReal m = 0, b = 0, k = 0; static const MechanicalMatrix M, B, K; MechanicalMatrix operator*(SReal f) const { return {m * f, b * f, k * f}; } MechanicalMatrix operator+(const MechanicalMatrix &o) const { return {m + o.m, b + o.b, k + o.k}; } MechanicalMatrix operator-() const { return *this * -1.; } friend MechanicalMatrix operator*(SReal f, const MechanicalMatrix &a) { return a * f; } };
inline const MechanicalMatrix MechanicalMatrix::M{1, 0, 0}, MechanicalMatrix::B{0, 1, 0}, MechanicalMatrix::K{0, 0, 1};
template <class Ops> class MultiMatrix { Ops *o; public: explicit MultiMatrix(Ops *p) : o(p) { o->m_resetSystem(); } void clear() { o->m_resetSystem(); } void reset() { o->m_resetSystem(); } void setSystemMBKMatrix(const MechanicalMatrix &m) { o->m_setSystemMBKMatrix(m.m, m.b, m.k); } void operator=(const MechanicalMatrix &m) { setSystemMBKMatrix(m); } void solve(MultiVecDerivId l, MultiVecDerivId r) { o->m_setSystemRHVector(r); o->m_setSystemLHVector(l); o->m_solveSystem(); } };
}
