// Stand-in for the part of TensorToolkit (qlten) that QuantumLiquids/PEPS uses.  Dense storage with quantum-number
// bookkeeping, Z2-graded (fermionic) signs, mat.hpp for the dense linear algebra.  Written for verification: simple, not fast.
#ifndef STANDIN_QLTEN_CORE_HPP
#define STANDIN_QLTEN_CORE_HPP
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <mpi.h>
#include "qlten/mat.hpp"

#define HANDLE_MPI_ERROR(call) do { int e_ = (call); if (e_ != MPI_SUCCESS) { std::fprintf(stderr, "MPI error %d\n", e_); MPI_Abort(MPI_COMM_WORLD, e_); } } while (0)

namespace qlten {
using QLTEN_Double = double;
using QLTEN_Float = float;
using QLTEN_Complex = std::complex<double>;
using QLTEN_ComplexFloat = std::complex<float>;
using CoorsT = std::vector<size_t>;
using ShapeT = std::vector<size_t>;
using TenAxesT = std::vector<size_t>;
const std::string kQLTenFileSuffix = "qlten";
const double kDoubleEpsilon = 1e-15;
const double kFloatEpsilon = 1e-7;
inline std::vector<CoorsT> GenAllCoors(const ShapeT &s) {
  std::vector<CoorsT> r; size_t n = 1; for (size_t x : s) n *= x; CoorsT c(s.size(), 0);
  for (size_t k = 0; k < n; ++k) { r.push_back(c); for (size_t i = s.size(); i-- > 0;) { if (++c[i] < s[i]) break; c[i] = 0; } }
  return r;
}

template<typename T> struct RealTypeTrait { using type = T; };
template<typename T> struct RealTypeTrait<std::complex<T>> { using type = T; };
template<typename T> struct is_cplx : std::false_type {};
template<typename T> struct is_cplx<std::complex<T>> : std::true_type {};

enum TenIndexDirType { IN = -1, NDIR = 0, OUT = 1 };
constexpr TenIndexDirType kInvDir(TenIndexDirType d) { return d == IN ? OUT : d == OUT ? IN : NDIR; }

enum ExecutorStatus { INITED, EXEING, FINISH };
class Executor {
 public:
  Executor() = default;
  virtual ~Executor() = default;
  virtual void Execute() = 0;
  void SetStatus(ExecutorStatus s) { status_ = s; }
  ExecutorStatus GetStatus() const { return status_; }
 protected:
  ExecutorStatus status_ = INITED;
};
class Showable { public: virtual ~Showable() = default; virtual void Show(const size_t indent_level = 0) const = 0; };
class Streamable { public: virtual ~Streamable() = default; virtual void StreamRead(std::istream &) = 0; virtual void StreamWrite(std::ostream &) const = 0; };
inline std::string IndentPrinter(size_t n) { return std::string(2 * n, ' '); }
inline std::ostream &operator<<(std::ostream &o, const Streamable &x) { x.StreamWrite(o); return o; }
inline std::istream &operator>>(std::istream &i, Streamable &x) { x.StreamRead(i); return i; }

class Timer {
  std::chrono::steady_clock::time_point t0_; double acc_ = 0; bool run_ = true; std::string name_;
 public:
  Timer() { Restart(); }
  explicit Timer(const std::string &n) : name_(n) { Restart(); }
  void Restart() { t0_ = std::chrono::steady_clock::now(); acc_ = 0; run_ = true; }
  void Suspend() { if (run_) { acc_ += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0_).count(); run_ = false; } }
  void ClearAndRestart() { Restart(); }
  double Elapsed() const { return acc_ + (run_ ? std::chrono::duration<double>(std::chrono::steady_clock::now() - t0_).count() : 0.0); }
  double PrintElapsed(std::size_t prec = 5) const { double e = Elapsed(); std::cout << "[timing] " << name_ << " " << std::setprecision((int) prec) << e << std::endl; return e; }
};

namespace hp_numeric {
constexpr int kMPIMasterRank = 0;
inline void SetTensorManipulationThreads(unsigned) {}
inline unsigned GetTensorManipulationThreads() { return 1; }
template<typename T> MPI_Datatype GetMPIDataType();
template<> inline MPI_Datatype GetMPIDataType<double>() { return MPI_DOUBLE; }
template<> inline MPI_Datatype GetMPIDataType<float>() { return MPI_FLOAT; }
template<> inline MPI_Datatype GetMPIDataType<std::complex<double>>() { return MPI_CXX_DOUBLE_COMPLEX; }
template<> inline MPI_Datatype GetMPIDataType<std::complex<float>>() { return MPI_CXX_FLOAT_COMPLEX; }
template<> inline MPI_Datatype GetMPIDataType<size_t>() { return MPI_UINT64_T; }
template<> inline MPI_Datatype GetMPIDataType<int>() { return MPI_INT; }
template<> inline MPI_Datatype GetMPIDataType<char>() { return MPI_CHAR; }
template<typename T> inline int MPI_Bcast(T *p, size_t n, int root, const MPI_Comm &c) { return ::MPI_Bcast(p, (int) n, GetMPIDataType<T>(), root, c); }
template<typename T> inline int MPI_Send(const T *p, size_t n, int dest, int tag, const MPI_Comm &c) { return ::MPI_Send(p, (int) n, GetMPIDataType<T>(), dest, tag, c); }
template<typename T> inline int MPI_Recv(T *p, size_t n, int src, int tag, const MPI_Comm &c, MPI_Status *st) { return ::MPI_Recv(p, (int) n, GetMPIDataType<T>(), src, tag, c, st); }
template<typename T, typename = std::enable_if_t<!std::is_pointer_v<T>>> inline int MPI_Send(const T &x, int dest, int tag, const MPI_Comm &c) { return ::MPI_Send(&x, 1, GetMPIDataType<T>(), dest, tag, c); }
template<typename T, typename = std::enable_if_t<!std::is_pointer_v<T>>> inline MPI_Status MPI_Recv(T &x, int src, int tag, const MPI_Comm &c) { MPI_Status st; ::MPI_Recv(&x, 1, GetMPIDataType<T>(), src, tag, c, &st); return st; }
template<typename T> inline MPI_Status MPI_Recv(T *p, size_t n, int src, int tag, const MPI_Comm &c) { MPI_Status st; ::MPI_Recv(p, (int) n, GetMPIDataType<T>(), src, tag, c, &st); return st; }
template<typename T> inline int MPI_Bcast(T &x, int root, const MPI_Comm &c) { return ::MPI_Bcast(&x, 1, GetMPIDataType<T>(), root, c); }
template<typename T> inline void VectorCopy(const T *s, size_t n, T *d) { std::copy(s, s + n, d); }
inline void GatherAndPrintErrorMessages(const std::string &m, const MPI_Comm &comm) { if (!m.empty()) std::cerr << m << std::endl; (void) comm; }
inline void GatherAndPrintErrorMessages(const std::vector<std::string> &m, const MPI_Comm &comm) { for (auto &x : m) std::cerr << x << std::endl; (void) comm; }
}  // namespace hp_numeric

// ---------------------------------------------------------------- quantum numbers
class U1QNVal { int v_; public: U1QNVal(int v = 0) : v_(v) {} int Get() const { return v_; } };
class Z2QNVal { int v_; public: Z2QNVal(int v = 0) : v_(v) {} int Get() const { return v_; } };
template<size_t N> class ZNQNVal { int v_; public: ZNQNVal(int v = 0) : v_(v) {} int Get() const { return v_; } };
struct QNCard { std::string name; int val; template<class V> QNCard(const std::string &n, const V &v) : name(n), val(v.Get()) {} };
using QNCardVec = std::vector<QNCard>;

namespace special_qn {
// K integer charges; component k is taken modulo M[k] when M[k] > 0; fermion parity = sum over charges flagged in F.
template<class Tag, size_t K> class QNBase {
 public:
  std::array<int, K> v{};
  QNBase() = default;
  template<class... A, class = std::enable_if_t<sizeof...(A) == K && K != 0 && (std::is_convertible_v<A, int> && ...)>>
  explicit QNBase(A... a) : v{(int) a...} { norm(); }
  explicit QNBase(const QNCardVec &c) { for (size_t k = 0; k < K && k < c.size(); ++k) v[k] = c[k].val; norm(); }
  void norm() { for (size_t k = 0; k < K; ++k) if (Tag::mod(k) > 0) { v[k] %= Tag::mod(k); if (v[k] < 0) v[k] += Tag::mod(k); } }
  QNBase operator-() const { QNBase r; for (size_t k = 0; k < K; ++k) r.v[k] = -v[k]; r.norm(); return r; }
  QNBase operator+(const QNBase &o) const { QNBase r; for (size_t k = 0; k < K; ++k) r.v[k] = v[k] + o.v[k]; r.norm(); return r; }
  QNBase operator-(const QNBase &o) const { return *this + (-o); }
  QNBase &operator+=(const QNBase &o) { return *this = *this + o; }
  bool operator==(const QNBase &o) const { return v == o.v; }
  bool operator!=(const QNBase &o) const { return !(v == o.v); }
  bool operator<(const QNBase &o) const { return v < o.v; }
  static QNBase Zero() { return QNBase(); }
  int GetVal(size_t k = 0) const { return v[k]; }
  size_t Hash() const { size_t h = 1469598103934665603ull; for (int x : v) h = (h ^ (size_t) (unsigned) x) * 1099511628211ull; return K ? h : 0; }
  static constexpr bool IsFermionic() { return Tag::fermionic; }
  bool IsFermionParityOdd() const { int s = 0; for (size_t k = 0; k < K; ++k) if (Tag::ferm(k)) s += v[k]; return s & 1; }
  bool IsFermionParityEven() const { return !IsFermionParityOdd(); }
  size_t dim() const { return 1; }
};
struct TTriv { static constexpr bool fermionic = false; static int mod(size_t) { return 0; } static bool ferm(size_t) { return false; } };
struct TU1 : TTriv {};
struct TZ2 : TTriv { static int mod(size_t) { return 2; } };
struct TU1U1 : TTriv {};
struct TU1Z2 : TTriv { static int mod(size_t k) { return k == 1 ? 2 : 0; } };
struct TfZ2 { static constexpr bool fermionic = true; static int mod(size_t) { return 2; } static bool ferm(size_t) { return true; } };
struct TfU1 { static constexpr bool fermionic = true; static int mod(size_t) { return 0; } static bool ferm(size_t) { return true; } };
struct TfU1U1 { static constexpr bool fermionic = true; static int mod(size_t) { return 0; } static bool ferm(size_t k) { return k == 0; } };   // (particle number, Sz)
struct TfZ2U1 { static constexpr bool fermionic = true; static int mod(size_t k) { return k == 0 ? 2 : 0; } static bool ferm(size_t k) { return k == 0; } };
template<size_t N> struct TZn : TTriv { static int mod(size_t) { return (int) N; } };
using TrivialRepQN = QNBase<TTriv, 0>;
using U1QN = QNBase<TU1, 1>;
using Z2QN = QNBase<TZ2, 1>;
using U1U1QN = QNBase<TU1U1, 2>;
using U1U1ZnQN = QNBase<TU1Z2, 2>;
using fZ2QN = QNBase<TfZ2, 1>;
using fU1QN = QNBase<TfU1, 1>;
using fU1U1QN = QNBase<TfU1U1, 2>;
using fZ2U1QN = QNBase<TfZ2U1, 2>;
template<size_t N> using ZnQN = QNBase<TZn<N>, 1>;
template<class Tag, size_t K> std::ostream &operator<<(std::ostream &o, const QNBase<Tag, K> &q) { if (K == 0) return o; for (int x : q.v) o << x << "\n"; return o << q.Hash() << "\n"; }
template<class Tag, size_t K> std::istream &operator>>(std::istream &i, QNBase<Tag, K> &q) { if (K == 0) return i; for (int &x : q.v) i >> x; size_t h; i >> h; return i; }
}  // namespace special_qn
template<class QNT> struct Fermionicable { static constexpr bool IsFermionic() { return QNT::IsFermionic(); } };

template<typename QNT> class QNSector {
  QNT qn_; size_t d_ = 0;
 public:
  QNSector() = default;
  QNSector(const QNT &q, size_t d) : qn_(q), d_(d) {}
  const QNT &GetQn() const { return qn_; }
  size_t dim() const { return d_; }
  size_t GetDegeneracy() const { return d_; }
  size_t Hash() const { return qn_.Hash() ^ d_; }
  bool IsFermionParityOdd() const { return qn_.IsFermionParityOdd(); }
  bool IsFermionParityEven() const { return !qn_.IsFermionParityOdd(); }
  bool operator==(const QNSector &o) const { return qn_ == o.qn_ && d_ == o.d_; }
  bool operator!=(const QNSector &o) const { return !(*this == o); }
};
template<typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;

template<typename QNT> class Index {
  QNSectorVec<QNT> s_; TenIndexDirType dir_ = NDIR; size_t dim_ = 0;
 public:
  Index() = default;
  Index(const QNSectorVec<QNT> &s, TenIndexDirType d) : s_(s), dir_(d) { for (auto &x : s_) dim_ += x.dim(); }
  size_t dim() const { return dim_; }
  TenIndexDirType GetDir() const { return dir_; }
  const QNSectorVec<QNT> &GetQNScts() const { return s_; }
  const QNSectorVec<QNT> &GetQNSectors() const { return s_; }
  const QNSector<QNT> &GetQNSct(size_t i) const { return s_.at(i); }
  size_t GetQNSctNum() const { return s_.size(); }
  void Inverse() { dir_ = kInvDir(dir_); }
  std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t c) const { for (size_t b = 0; b < s_.size(); ++b) { if (c < s_[b].dim()) return {b, c}; c -= s_[b].dim(); } throw std::out_of_range("index coordinate"); }
  const QNSector<QNT> &GetQNSctFromActualCoor(size_t c) const { return s_[CoorToBlkCoorDataCoor(c).first]; }
  bool operator==(const Index &o) const { return dir_ == o.dir_ && s_ == o.s_; }
  bool operator!=(const Index &o) const { return !(*this == o); }
  size_t Hash() const { size_t h = 7 + (size_t) (int) dir_; for (auto &x : s_) h = h * 1000003 + x.Hash(); return h; }
  void Show(size_t = 0) const {}
  static constexpr bool IsFermionic() { return QNT::IsFermionic(); }
  // charge of every coordinate
  std::vector<QNT> charges() const { std::vector<QNT> q; q.reserve(dim_); for (auto &x : s_) for (size_t k = 0; k < x.dim(); ++k) q.push_back(x.GetQn()); return q; }
};
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;
template<typename QNT> Index<QNT> InverseIndex(const Index<QNT> &i) { Index<QNT> r = i; r.Inverse(); return r; }
template<typename QNT> std::ostream &operator<<(std::ostream &o, const Index<QNT> &x) {
  o << x.GetQNSctNum() << "\n"; for (auto &s : x.GetQNScts()) o << s.GetQn() << s.dim() << "\n" << s.Hash() << "\n";
  return o << (int) x.GetDir() << "\n" << x.dim() << "\n" << x.Hash() << "\n";
}
template<typename QNT> std::istream &operator>>(std::istream &in, Index<QNT> &x) {
  size_t n = 0; in >> n; if (!in || n > 100000) { in.setstate(std::ios::failbit); return in; } QNSectorVec<QNT> v; for (size_t k = 0; k < n; ++k) { QNT q; size_t d, h; in >> q >> d >> h; v.emplace_back(q, d); }
  int dir; size_t dim, h; in >> dir >> dim >> h; x = Index<QNT>(v, (TenIndexDirType) dir); return in;
}

inline std::mt19937_64 &random_engine() { static std::mt19937_64 e(42); return e; }
inline void SetRandomSeed(unsigned s) { random_engine().seed(s); }
template<typename E> E RandElem() { std::uniform_real_distribution<double> u(0.0, 1.0); if constexpr (is_cplx<E>::value) { double a = u(random_engine()), b = u(random_engine()); return E((typename E::value_type) a, (typename E::value_type) b); } else return (E) u(random_engine()); }
template<typename E> E conj_(const E &x) { if constexpr (is_cplx<E>::value) return std::conj(x); else return x; }

// ---------------------------------------------------------------- tensor
template<typename E, typename QNT> class QLTensor {
 public:
  using RealT = typename RealTypeTrait<E>::type;
  using value_type = E;
  QLTensor() = default;
  QLTensor(const IndexVec<QNT> &ix) : ix_(ix), init_(true) { build(); }
  QLTensor(std::initializer_list<Index<QNT>> ix) : ix_(ix), init_(true) { build(); }
  QLTensor(const QLTensor &) = default;
  QLTensor(QLTensor &&o) noexcept : ix_(std::move(o.ix_)), sh_(std::move(o.sh_)), d_(std::move(o.d_)), div_(o.div_), init_(o.init_) { o.reset(); }
  QLTensor &operator=(const QLTensor &) = default;
  QLTensor &operator=(QLTensor &&o) noexcept { if (this != &o) { ix_ = std::move(o.ix_); sh_ = std::move(o.sh_); d_ = std::move(o.d_); div_ = o.div_; init_ = o.init_; o.reset(); } return *this; }
  // real -> complex
  template<typename R, typename = std::enable_if_t<is_cplx<E>::value && std::is_same_v<R, RealT>>>
  QLTensor(const QLTensor<R, QNT> &o) : ix_(o.ix_), sh_(o.sh_), d_(o.d_.begin(), o.d_.end()), div_(o.div_), init_(o.init_) {}
  virtual ~QLTensor() = default;

  static constexpr bool IsFermionic() { return QNT::IsFermionic(); }
  bool IsDefault() const { return !init_; }
  bool IsScalar() const { return init_ && ix_.empty(); }
  size_t Rank() const { return ix_.size(); }
  size_t size() const { return d_.size(); }
  const IndexVec<QNT> &GetIndexes() const { return ix_; }
  const Index<QNT> &GetIndex(size_t i) const { return ix_.at(i); }
  const ShapeT &GetShape() const { return sh_; }
  QNT Div() const { return div_ ? *div_ : QNT(); }
  size_t GetActualDataSize() const { return div_ ? block_elems() : 0; }
  size_t GetQNBlkNum() const { return div_ ? blocks().size() : 0; }

  class Ref {
    QLTensor &t_; CoorsT c_;
   public:
    Ref(QLTensor &t, CoorsT c) : t_(t), c_(std::move(c)) {}
    Ref &operator=(const E &x) { t_.SetElem(c_, x); return *this; }
    Ref &operator=(const Ref &o) { t_.SetElem(c_, (E) o); return *this; }
    Ref &operator+=(const E &x) { t_.SetElem(c_, t_.GetElem(c_) + x); return *this; }
    Ref &operator*=(const E &x) { t_.SetElem(c_, t_.GetElem(c_) * x); return *this; }
    operator E() const { return t_.GetElem(c_); }
  };
  Ref operator()(const CoorsT &c) { return Ref(*this, c); }
  E operator()(const CoorsT &c) const { return GetElem(c); }
  template<class... A, class = std::enable_if_t<(sizeof...(A) >= 1) && (std::is_integral_v<A> && ...)>> Ref operator()(A... a) { return Ref(*this, CoorsT{(size_t) a...}); }
  template<class... A, class = std::enable_if_t<(sizeof...(A) >= 1) && (std::is_integral_v<A> && ...)>> E operator()(A... a) const { return GetElem(CoorsT{(size_t) a...}); }
  Ref operator()() { return Ref(*this, CoorsT{}); }
  E operator()() const { return GetElem(CoorsT{}); }
  E GetElem(const CoorsT &c) const { if (c.size() != ix_.size()) throw std::out_of_range("tensor coordinates"); return d_.at(off(c)); }
  void SetElem(const CoorsT &c, const E x) {
    if (c.size() != ix_.size()) throw std::out_of_range("tensor coordinates");
    QNT q = charge(c);
    if (!div_) div_ = q; else if (*div_ != q) { if (x == E(0)) return; throw std::runtime_error("stand-in: element outside the charge sector"); }
    d_.at(off(c)) = x;
  }
  void Random(const QNT &q) { div_ = q; std::fill(d_.begin(), d_.end(), E(0)); each([&](size_t o, const CoorsT &) { d_[o] = RandElem<E>(); }); fix_div(); }
  void Fill(const QNT &q, const E x) { div_ = q; std::fill(d_.begin(), d_.end(), E(0)); each([&](size_t o, const CoorsT &) { d_[o] = x; }); fix_div(); }

  // graded permutation of the legs
  void Transpose(const std::vector<size_t> &ax) {
    if (!init_) return; if (ax.size() != ix_.size()) throw std::runtime_error("stand-in: Transpose rank");
    bool id = true; for (size_t i = 0; i < ax.size(); ++i) if (ax[i] != i) id = false;
    if (id) return;
    const size_t r = ax.size(); auto par = parities(); auto st = strides(sh_);
    IndexVec<QNT> ni(r); ShapeT ns(r); for (size_t i = 0; i < r; ++i) { ni[i] = ix_[ax[i]]; ns[i] = sh_[ax[i]]; }
    std::vector<E> nd(d_.size()); CoorsT c(r, 0); size_t o = 0;
    for (size_t n = 0; n < nd.size(); ++n) {
      E x = d_[o];
      if constexpr (IsFermionic()) { if (x != E(0)) { int sgn = 0; for (size_t i = 0; i < r; ++i) if (par[ax[i]][c[i]]) for (size_t j = i + 1; j < r; ++j) if (ax[j] < ax[i] && par[ax[j]][c[j]]) sgn ^= 1; if (sgn) x = -x; } }
      nd[n] = x;
      for (size_t i = r; i-- > 0;) { if (++c[i] < ns[i]) { o += st[ax[i]]; break; } o -= st[ax[i]] * (ns[i] - 1); c[i] = 0; }
    }
    ix_ = std::move(ni); sh_ = std::move(ns); d_ = std::move(nd);
  }
  void Dag() {   // reverse the order, conjugate, then put the legs back in place (graded)
    for (auto &x : d_) x = conj_(x);
    if constexpr (IsFermionic()) { auto par = parities(); walk([&](size_t o, const CoorsT &c) { size_t m = 0; for (size_t i = 0; i < c.size(); ++i) m += par[i][c[i]]; if ((m * (m - 1) / 2) & 1) d_[o] = -d_[o]; }); }
    for (auto &i : ix_) i.Inverse();
    if (div_) div_ = -*div_;
  }
  void ActFermionPOps() {   // parity on the outgoing legs
    if constexpr (IsFermionic()) { auto par = parities(); walk([&](size_t o, const CoorsT &c) { int s = 0; for (size_t i = 0; i < c.size(); ++i) if (ix_[i].GetDir() == OUT && par[i][c[i]]) s ^= 1; if (s) d_[o] = -d_[o]; }); }
  }
  QLTensor operator-() const { QLTensor r = *this; for (auto &x : r.d_) x = -x; return r; }
  QLTensor operator+(const QLTensor &o) const { QLTensor r = *this; r += o; return r; }
  QLTensor operator-(const QLTensor &o) const { QLTensor r = *this; r += -o; return r; }
  QLTensor &operator+=(const QLTensor &o) {
    if (!o.init_) throw std::runtime_error("stand-in: adding a default tensor");
    if (!init_) { *this = o; return *this; }
    if (!(ix_ == o.ix_)) throw std::runtime_error("stand-in: adding tensors with different indices");
    if (div_ && o.div_ && *div_ != *o.div_) throw std::runtime_error("stand-in: adding tensors of different divergence");
    if (!div_) div_ = o.div_;
    for (size_t i = 0; i < d_.size(); ++i) d_[i] += o.d_[i]; return *this;
  }
  QLTensor &operator*=(const E s) { for (auto &x : d_) x *= s; return *this; }
  QLTensor operator*(const E s) const { QLTensor r = *this; r *= s; return r; }
  bool operator==(const QLTensor &o) const { if (init_ != o.init_) return false; if (!init_) return true; return ix_ == o.ix_ && d_ == o.d_; }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }
  RealT GetQuasi2Norm() const { double s = 0; for (auto &x : d_) s += std::norm(x); return (RealT) std::sqrt(s); }
  RealT Get2Norm() const {
    if constexpr (!IsFermionic()) return GetQuasi2Norm();
    else { auto par = parities(); double s = 0; const_cast<QLTensor *>(this)->walk([&](size_t o, const CoorsT &c) { int g = 0; for (size_t i = 0; i < c.size(); ++i) if (ix_[i].GetDir() == IN && par[i][c[i]]) g ^= 1; s += (g ? -1 : 1) * std::norm(d_[o]); }); return (RealT) std::sqrt(std::abs(s)); }
  }
  RealT Normalize() { RealT n = Get2Norm(); *this *= E(RealT(1) / n); return n; }
  RealT QuasiNormalize() { RealT n = GetQuasi2Norm(); *this *= E(RealT(1) / n); return n; }
  RealT GetMaxAbs() const { double m = 0; for (auto &x : d_) m = std::max(m, (double) std::abs(x)); return (RealT) m; }
  double GetFirstNonZeroElement() const { for (auto &x : d_) if (x != E(0)) return std::real(x); return 0; }
  bool HasNan() const { for (auto &x : d_) if (std::isnan(std::real(x)) || std::isnan(std::imag(x))) return true; return false; }
  void ElementWiseSquare() { for (auto &x : d_) x = x * x; }
  void ElementWiseSquaredNorm() { for (auto &x : d_) x = E((RealT) std::norm(x)); }
  void ElementWiseSqrt() { for (auto &x : d_) x = std::sqrt(x); }
  void ElementWiseInv(RealT tol = 0) { for (auto &x : d_) x = std::abs(x) <= tol ? E(0) : E(1) / x; }
  template<class G, class D> void ElementWiseRandSign(D &, G &) {}
  template<class F, class G> void ElementWiseRandomizeMagnitudePreservePhase(F &dist, G &gen) { for (auto &x : d_) if (x != E(0)) x *= E((RealT) dist(gen) / (RealT) std::abs(x)); }
  void ElementWiseClipTo(RealT lim) { for (auto &x : d_) { RealT a = std::abs(x); if (a > lim) x *= E(lim / a); } }
  void ElementWiseBoundTo(RealT lim) { ElementWiseClipTo(lim); }

  // fuse legs i and j into one leg placed first
  void FuseIndex(size_t i, size_t j) {
    if (ix_[i].GetDir() != ix_[j].GetDir()) throw std::runtime_error("stand-in: FuseIndex directions");
    std::vector<size_t> ax{i, j}; for (size_t k = 0; k < ix_.size(); ++k) if (k != i && k != j) ax.push_back(k);
    Transpose(ax);
    auto a = ix_[0], b = ix_[1]; auto qa = a.charges(), qb = b.charges(); std::vector<std::pair<QNT, std::vector<size_t>>> g;
    for (size_t x = 0; x < qa.size(); ++x) for (size_t y = 0; y < qb.size(); ++y) { QNT q = qa[x] + qb[y]; size_t k = 0; for (; k < g.size(); ++k) if (g[k].first == q) break; if (k == g.size()) g.push_back({q, {}}); g[k].second.push_back(x * qb.size() + y); }
    QNSectorVec<QNT> sc; std::vector<size_t> order; for (auto &p : g) { sc.emplace_back(p.first, p.second.size()); order.insert(order.end(), p.second.begin(), p.second.end()); }
    size_t rest = d_.size() / std::max<size_t>(1, order.size()); std::vector<E> nd(d_.size());
    for (size_t n = 0; n < order.size(); ++n) std::copy(d_.begin() + order[n] * rest, d_.begin() + (order[n] + 1) * rest, nd.begin() + n * rest);
    d_ = std::move(nd); ix_.erase(ix_.begin()); ix_[0] = Index<QNT>(sc, a.GetDir()); sh_.erase(sh_.begin()); sh_[0] = order.size();
  }

  // stream format as in TensorToolkit: rank, indices, block count, block coordinates, raw block data
  void StreamWrite(std::ostream &o) const {
    o << ix_.size() << "\n"; for (auto &i : ix_) o << i;
    auto bl = div_ ? blocks() : std::vector<CoorsT>{}; o << bl.size() << "\n"; for (auto &b : bl) for (size_t x : b) o << x << "\n";
    auto raw = to_raw(); o.write((const char *) raw.data(), (std::streamsize) (raw.size() * sizeof(E))); o << "\n";
  }
  void StreamRead(std::istream &in) {
    size_t r = 0; in >> r; if (!in || r > 64) { in.setstate(std::ios::failbit); return; } IndexVec<QNT> ix(r); for (auto &i : ix) { in >> i; if (!in) return; } *this = QLTensor(ix);
    size_t nb = 0; in >> nb; std::vector<CoorsT> bl; for (size_t k = 0; k < nb && in; ++k) { CoorsT b(r); for (auto &x : b) in >> x; bl.push_back(b); }
    if (!in) return;
    in.get();
    for (auto &b : bl) { auto cs = block_coords(b); for (auto &c : cs) { E x{}; in.read((char *) &x, sizeof(E)); d_[off(c)] = x; } if (!cs.empty()) div_ = charge(cs[0]); }
    if (nb == 0) in.get();
  }
  void Show(size_t = 0) const {}
  void ConciseShow(size_t = 0) const {}
  E *GetRawDataPtr() { return d_.data(); }
  const E *GetRawDataPtr() const { return d_.data(); }

  // MPI
  std::string pack() const { std::ostringstream o; o << (init_ ? 1 : 0) << "\n"; if (init_) { StreamWrite(o); if (div_) o << "1\n" << *div_; else o << "0\n"; } return o.str(); }
  void unpack(const std::string &s) { std::istringstream i(s); int f; i >> f; if (!f) { reset(); return; } StreamRead(i); int h; i >> h; if (h) { QNT q; i >> q; div_ = q; } }
  void MPI_Send(int dest, int tag, const MPI_Comm &c) const { auto s = pack(); uint64_t n = s.size(); ::MPI_Send(&n, 1, MPI_UINT64_T, dest, tag, c); ::MPI_Send(s.data(), (int) n, MPI_CHAR, dest, tag, c); }
  MPI_Status MPI_Recv(int src, int tag, const MPI_Comm &c) { MPI_Status st; uint64_t n; ::MPI_Recv(&n, 1, MPI_UINT64_T, src, tag, c, &st); std::string s(n, 0); ::MPI_Recv(s.data(), (int) n, MPI_CHAR, st.MPI_SOURCE, st.MPI_TAG, c, &st); unpack(s); return st; }
  void MPI_Bcast(int root, const MPI_Comm &c) { int r; MPI_Comm_rank(c, &r); std::string s; uint64_t n = 0; if (r == root) { s = pack(); n = s.size(); } ::MPI_Bcast(&n, 1, MPI_UINT64_T, root, c); s.resize(n); ::MPI_Bcast(s.data(), (int) n, MPI_CHAR, root, c); if (r != root) unpack(s); }
  template<class Buf> void PackShellForMPI(Buf &b) const { QLTensor t = *this; std::fill(t.d_.begin(), t.d_.end(), E(0)); std::string s = t.pack(); uint64_t n = s.size(); const char *p = (const char *) &n; b.insert(b.end(), p, p + 8); b.insert(b.end(), s.begin(), s.end()); }
  void UnpackShellForMPI(const char *&cur, const char *end) {
    uint64_t n; if ((size_t) (end - cur) < 8) throw std::runtime_error("stand-in: truncated shell"); std::memcpy(&n, cur, 8); cur += 8;
    if ((size_t) (end - cur) < n) throw std::runtime_error("stand-in: truncated shell"); unpack(std::string(cur, n)); cur += n;
  }
  struct Bsdt { QLTensor &t; void RawDataMPIBcast(const MPI_Comm &c, int root) { ::MPI_Bcast(t.d_.data(), (int) (t.d_.size() * sizeof(E)), MPI_BYTE, root, c); }
    size_t GetActualRawDataSize() const { return t.GetActualDataSize(); } E *GetActualRawDataPtr() { return t.d_.data(); } };
  Bsdt GetBlkSparDataTen() { return Bsdt{*this}; }
  Bsdt GetBlkSparDataTen() const { return Bsdt{const_cast<QLTensor &>(*this)}; }

  // ---- used by the free functions below
  IndexVec<QNT> ix_; ShapeT sh_; std::vector<E> d_; std::optional<QNT> div_; bool init_ = false;
  void reset() { ix_.clear(); sh_.clear(); d_.clear(); div_.reset(); init_ = false; }
  void build() { sh_.clear(); size_t n = 1; for (auto &i : ix_) { sh_.push_back(i.dim()); n *= i.dim(); } d_.assign(n, E(0)); }
  static std::vector<size_t> strides(const ShapeT &s) { std::vector<size_t> st(s.size()); size_t n = 1; for (size_t i = s.size(); i-- > 0;) { st[i] = n; n *= s[i]; } return st; }
  size_t off(const CoorsT &c) const { size_t o = 0; for (size_t i = 0; i < c.size(); ++i) { if (c[i] >= sh_[i]) throw std::out_of_range("tensor coordinates"); o = o * sh_[i] + c[i]; } return o; }
  std::vector<std::vector<char>> parities() const { std::vector<std::vector<char>> p; if constexpr (IsFermionic()) for (auto &i : ix_) { std::vector<char> v; for (auto &q : i.charges()) v.push_back(q.IsFermionParityOdd()); p.push_back(v); } return p; }
  QNT charge(const CoorsT &c) const { QNT q; for (size_t i = 0; i < c.size(); ++i) { const QNT &x = ix_[i].GetQNSctFromActualCoor(c[i]).GetQn(); q = ix_[i].GetDir() == IN ? q - x : q + x; } return q; }
  template<class F> void walk(F f) { CoorsT c(sh_.size(), 0); for (size_t o = 0; o < d_.size(); ++o) { f(o, c); for (size_t i = c.size(); i-- > 0;) { if (++c[i] < sh_[i]) break; c[i] = 0; } } }
  template<class F> void each(F f) {   // elements inside the charge sector div_
    std::vector<std::vector<QNT>> q; for (auto &i : ix_) q.push_back(i.charges());
    walk([&](size_t o, const CoorsT &c) { QNT s; for (size_t i = 0; i < c.size(); ++i) s = ix_[i].GetDir() == IN ? s - q[i][c[i]] : s + q[i][c[i]]; if (s == *div_) f(o, c); });
  }
  void fix_div() { if (block_elems() == 0) div_.reset(); }
  size_t block_elems() const { size_t n = 0; const_cast<QLTensor *>(this)->each([&](size_t, const CoorsT &) { ++n; }); return n; }
  std::vector<CoorsT> blocks() const {
    std::vector<CoorsT> r; size_t n = 1; for (auto &i : ix_) n *= i.GetQNSctNum(); CoorsT b(ix_.size(), 0);
    for (size_t k = 0; k < n; ++k) { QNT q; for (size_t i = 0; i < b.size(); ++i) { const QNT &x = ix_[i].GetQNSct(b[i]).GetQn(); q = ix_[i].GetDir() == IN ? q - x : q + x; } if (q == *div_) r.push_back(b); for (size_t i = b.size(); i-- > 0;) { if (++b[i] < ix_[i].GetQNSctNum()) break; b[i] = 0; } }
    return r;
  }
  std::vector<CoorsT> block_coords(const CoorsT &b) const {
    CoorsT lo(b.size()), n(b.size()); size_t tot = 1; for (size_t i = 0; i < b.size(); ++i) { size_t o = 0; for (size_t k = 0; k < b[i]; ++k) o += ix_[i].GetQNSct(k).dim(); lo[i] = o; n[i] = ix_[i].GetQNSct(b[i]).dim(); tot *= n[i]; }
    std::vector<CoorsT> r; CoorsT c(b.size(), 0); for (size_t k = 0; k < tot; ++k) { CoorsT x(b.size()); for (size_t i = 0; i < b.size(); ++i) x[i] = lo[i] + c[i]; r.push_back(x); for (size_t i = b.size(); i-- > 0;) { if (++c[i] < n[i]) break; c[i] = 0; } }
    return r;
  }
  std::vector<E> to_raw() const { std::vector<E> r; if (div_) for (auto &b : blocks()) for (auto &c : block_coords(b)) r.push_back(d_[off(c)]); return r; }
};
template<typename E, typename Q> std::ostream &operator<<(std::ostream &o, const QLTensor<E, Q> &t) { t.StreamWrite(o); return o; }
template<typename E, typename Q> std::istream &operator>>(std::istream &i, QLTensor<E, Q> &t) { t.StreamRead(i); return i; }
template<typename S, typename E, typename Q, typename = std::enable_if_t<std::is_convertible_v<S, E> && !std::is_class_v<S>>> QLTensor<E, Q> operator*(const S s, const QLTensor<E, Q> &t) { return t * E(s); }
template<typename T, typename Q> QLTensor<std::complex<T>, Q> operator*(const std::complex<T> &s, const QLTensor<std::complex<T>, Q> &t) { return t * s; }
template<typename E, typename Q> QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { auto r = t; r.Dag(); return r; }
template<typename E, typename Q> QLTensor<std::complex<E>, Q> ToComplex(const QLTensor<E, Q> &t) { return QLTensor<std::complex<E>, Q>(t); }
template<typename E, typename Q> Q Div(const QLTensor<E, Q> &t) { return t.Div(); }

template<typename E, typename Q> void ContractImpl(const QLTensor<E, Q> *a, const std::vector<size_t> &ca, const std::vector<size_t> &sa, const QLTensor<E, Q> *b, const std::vector<size_t> &cb, const std::vector<size_t> &sb, QLTensor<E, Q> *c) {
  for (size_t k = 0; k < ca.size(); ++k) { const auto &x = a->GetIndex(ca[k]), &y = b->GetIndex(cb[k]);
    if (!(x.GetQNScts() == y.GetQNScts()) || (x.GetDir() == y.GetDir() && x.GetDir() != NDIR)) throw std::runtime_error("stand-in: contracting incompatible indices"); }
  QLTensor<E, Q> A = *a, B = *b; std::vector<size_t> pa = sa, pb; pa.insert(pa.end(), ca.begin(), ca.end());
  pb.assign(cb.rbegin(), cb.rend());                      // nested pairing: ... x1 x2 | x2 x1 ...
  pb.insert(pb.end(), sb.begin(), sb.end()); A.Transpose(pa); B.Transpose(pb);
  if constexpr (QLTensor<E, Q>::IsFermionic()) {          // bra (OUT) left of ket (IN): plain; ket left of bra: parity
    auto par = A.parities(); size_t r0 = sa.size(); std::vector<char> flip(A.Rank(), 0); bool any = false; for (size_t i = r0; i < A.Rank(); ++i) if (A.GetIndex(i).GetDir() == IN) { flip[i] = 1; any = true; }
    if (any) A.walk([&](size_t o, const CoorsT &cc) { int s = 0; for (size_t i = r0; i < cc.size(); ++i) if (flip[i] && par[i][cc[i]]) s ^= 1; if (s) A.d_[o] = -A.d_[o]; });
  }
  if (ca.size() > 1) {                                     // un-nest for the plain matrix product (no signs: the pairing is done)
    size_t n = ca.size(); std::vector<size_t> sh(n); size_t K = 1; for (size_t i = 0; i < n; ++i) { sh[i] = B.sh_[i]; K *= sh[i]; } size_t rest = B.d_.size() / std::max<size_t>(K, 1);
    std::vector<E> nd(B.d_.size()); CoorsT x(n, 0); for (size_t k = 0; k < K; ++k) { size_t o = 0; for (size_t i = n; i-- > 0;) o = o * sh[i] + x[i]; std::copy(B.d_.begin() + k * rest, B.d_.begin() + (k + 1) * rest, nd.begin() + o * rest); for (size_t i = n; i-- > 0;) { if (++x[i] < sh[i]) break; x[i] = 0; } }
    B.d_ = std::move(nd);
  }
  IndexVec<Q> ix; for (size_t i : sa) ix.push_back(a->GetIndex(i)); for (size_t i : sb) ix.push_back(b->GetIndex(i));
  QLTensor<E, Q> R(ix); size_t K = 1; for (size_t i : ca) K *= a->GetShape()[i]; size_t M = A.d_.size() / std::max<size_t>(K, 1), N = B.d_.size() / std::max<size_t>(K, 1);
  if (K && M && N) { E *o = R.d_.data(); const E *pa = A.d_.data(), *pb = B.d_.data(); for (size_t i = 0; i < (size_t) M; ++i) for (size_t k = 0; k < (size_t) K; ++k) { const E x = pa[i * K + k]; if (x == E(0)) continue; E *oi = o + i * N; const E *bk = pb + k * N; if constexpr (is_cplx<E>::value) { using RR = typename RealTypeTrait<E>::type; const RR xr = x.real(), xi = x.imag(); RR *f = (RR *) oi; const RR *h = (const RR *) bk; for (size_t j = 0; j < (size_t) N; ++j) { f[2 * j] += xr * h[2 * j] - xi * h[2 * j + 1]; f[2 * j + 1] += xr * h[2 * j + 1] + xi * h[2 * j]; } } else for (size_t j = 0; j < (size_t) N; ++j) oi[j] += x * bk[j]; } }
  if (a->div_ && b->div_) { R.div_ = *a->div_ + *b->div_; if (!ix.empty()) R.fix_div(); }
  *c = std::move(R);
}
template<typename E, typename Q> void Contract(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<E, Q> *c) {
  std::vector<size_t> sa, sb; for (size_t i = 0; i < a->Rank(); ++i) if (std::find(ax[0].begin(), ax[0].end(), i) == ax[0].end()) sa.push_back(i); for (size_t i = 0; i < b->Rank(); ++i) if (std::find(ax[1].begin(), ax[1].end(), i) == ax[1].end()) sb.push_back(i);
  ContractImpl(a, ax[0], sa, b, ax[1], sb, c);
}
template<typename E, typename Q> void Contract(const QLTensor<E, Q> *a, const std::vector<size_t> &ca, const QLTensor<E, Q> *b, const std::vector<size_t> &cb, QLTensor<E, Q> *c) { Contract(a, b, std::vector<std::vector<size_t>>{ca, cb}, c); }
// mixed real/complex
template<typename E, typename Q> void Contract(const QLTensor<std::complex<E>, Q> *a, const QLTensor<E, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<std::complex<E>, Q> *c) { auto bc = ToComplex(*b); Contract(a, &bc, ax, c); }
template<typename E, typename Q> void Contract(const QLTensor<E, Q> *a, const QLTensor<std::complex<E>, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<std::complex<E>, Q> *c) { auto ac = ToComplex(*a); Contract(&ac, b, ax, c); }
template<typename E, typename Q> void Contract(const QLTensor<std::complex<E>, Q> *a, const std::vector<size_t> &ca, const QLTensor<E, Q> *b, const std::vector<size_t> &cb, QLTensor<std::complex<E>, Q> *c) { auto bc = ToComplex(*b); Contract(a, ca, &bc, cb, c); }
template<typename E, typename Q> void Contract(const QLTensor<E, Q> *a, const std::vector<size_t> &ca, const QLTensor<std::complex<E>, Q> *b, const std::vector<size_t> &cb, QLTensor<std::complex<E>, Q> *c) { auto ac = ToComplex(*a); Contract(&ac, ca, b, cb, c); }
// cyclically contiguous axes; remaining legs in cyclic order after the contracted ones
template<typename E, typename Q, bool a_tail, bool b_head> void ContractCyc(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b, size_t as, size_t bs, size_t n, QLTensor<E, Q> &r) {
  std::vector<size_t> ca, cb, sa, sb; size_t ra = a.Rank(), rb = b.Rank(); for (size_t i = 0; i < n; ++i) { ca.push_back((as + i) % ra); cb.push_back((bs + i) % rb); }
  for (size_t i = 0; i + n < ra; ++i) sa.push_back((as + n + i) % ra); for (size_t i = 0; i + n < rb; ++i) sb.push_back((bs + n + i) % rb);
  ContractImpl(&a, ca, sa, &b, cb, sb, &r);
}
template<typename E, typename Q, bool a_tail, bool b_head, typename X, typename Y> void Contract(const QLTensor<X, Q> &a, const QLTensor<Y, Q> &b, size_t as, size_t bs, size_t n, QLTensor<E, Q> &r) {
  if constexpr (std::is_same_v<X, E> && std::is_same_v<Y, E>) ContractCyc<E, Q, a_tail, b_head>(a, b, as, bs, n, r);
  else { QLTensor<E, Q> ac(a), bc(b); ContractCyc<E, Q, a_tail, b_head>(ac, bc, as, bs, n, r); }
}

template<typename E, typename Q> void LinearCombine(const std::vector<E> &co, const std::vector<QLTensor<E, Q> *> &ts, const E beta, QLTensor<E, Q> *res) {
  QLTensor<E, Q> r; if (beta != E(0) && !res->IsDefault()) r = *res * beta; for (size_t i = 0; i < ts.size(); ++i) { auto t = *ts[i] * co[i]; if (r.IsDefault()) r = t; else r += t; } *res = r; }
template<typename E, typename Q> void LinearCombine(const size_t n, const E *co, const std::vector<QLTensor<E, Q> *> &ts, const E beta, QLTensor<E, Q> *res) { LinearCombine(std::vector<E>(co, co + n), std::vector<QLTensor<E, Q> *>(ts.begin(), ts.begin() + n), beta, res); }
template<typename E, typename Q> E QuasiInnerProduct(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) { if (!(a.GetIndexes() == b.GetIndexes())) throw std::runtime_error("stand-in: inner product of different shapes"); E s(0); for (size_t i = 0; i < a.d_.size(); ++i) s += conj_(a.d_[i]) * b.d_[i]; return s; }
template<typename E, typename Q> QLTensor<E, Q> ElementWiseSquare(const QLTensor<E, Q> &t) { auto r = t; r.ElementWiseSquare(); return r; }
template<typename E, typename Q> QLTensor<E, Q> ElementWiseSquaredNorm(const QLTensor<E, Q> &t) { auto r = t; r.ElementWiseSquaredNorm(); return r; }
template<typename E, typename Q> QLTensor<E, Q> ElementWiseSqrt(const QLTensor<E, Q> &t) { auto r = t; r.ElementWiseSqrt(); return r; }
template<typename E, typename Q> QLTensor<E, Q> ElementWiseInv(const QLTensor<E, Q> &t, double tol = 0) { auto r = t; r.ElementWiseInv(tol); return r; }
template<typename E, typename Q> QLTensor<E, Q> ElementWiseMultiply(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) { if (!(a.GetIndexes() == b.GetIndexes())) throw std::runtime_error("stand-in: element-wise product of different shapes"); auto r = a; for (size_t i = 0; i < r.d_.size(); ++i) r.d_[i] *= b.d_[i]; if (!r.div_) r.div_ = b.div_; return r; }
template<typename E, typename Q> QLTensor<E, Q> DiagMatInv(const QLTensor<E, Q> &t, double tol = 0) { auto r = t; size_t n = t.GetShape()[0]; for (size_t k = 0; k < n; ++k) { E &x = r.d_[k * n + k]; x = std::abs(x) <= tol ? E(0) : E(1) / x; } return r; }
template<typename T> bool is_nan(const T &x) { return std::isnan(std::real(x)) || std::isnan(std::imag(x)); }
template<typename E, typename Q> QLTensor<E, Q> Eye(const Index<Q> &i) { QLTensor<E, Q> t({i, InverseIndex(i)}); for (size_t k = 0; k < i.dim(); ++k) t({k, k}) = E(1); return t; }

// direct sum over the given legs
template<typename E, typename Q> void Expand(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &ax, QLTensor<E, Q> *c) {
  size_t r = a->Rank(); std::vector<std::vector<size_t>> ma(r), mb(r); IndexVec<Q> ix(r);
  for (size_t i = 0; i < r; ++i) {
    const auto &x = a->GetIndex(i), &y = b->GetIndex(i); ma[i].resize(x.dim()); mb[i].resize(y.dim());
    if (std::find(ax.begin(), ax.end(), i) == ax.end()) { if (!(x == y)) throw std::runtime_error("stand-in: Expand on different indices"); ix[i] = x; std::iota(ma[i].begin(), ma[i].end(), 0); mb[i] = ma[i]; continue; }
    QNSectorVec<Q> sc; std::vector<std::pair<Q, std::pair<size_t, size_t>>> g;   // merge sectors of equal charge, first a's then b's
    for (auto &s : x.GetQNScts()) { size_t k = 0; for (; k < g.size(); ++k) if (g[k].first == s.GetQn()) break; if (k == g.size()) g.push_back({s.GetQn(), {0, 0}}); g[k].second.first += s.dim(); }
    for (auto &s : y.GetQNScts()) { size_t k = 0; for (; k < g.size(); ++k) if (g[k].first == s.GetQn()) break; if (k == g.size()) g.push_back({s.GetQn(), {0, 0}}); g[k].second.second += s.dim(); }
    std::vector<size_t> st(g.size()), ua(g.size(), 0), ub(g.size(), 0); size_t n = 0; for (size_t k = 0; k < g.size(); ++k) { st[k] = n; n += g[k].second.first + g[k].second.second; sc.emplace_back(g[k].first, g[k].second.first + g[k].second.second); }
    auto qa = x.charges(), qb = y.charges(); auto find = [&](const Q &q) { for (size_t k = 0; k < g.size(); ++k) if (g[k].first == q) return k; return (size_t) 0; };
    for (size_t p = 0; p < qa.size(); ++p) { size_t k = find(qa[p]); ma[i][p] = st[k] + ua[k]++; } for (size_t p = 0; p < qb.size(); ++p) { size_t k = find(qb[p]); mb[i][p] = st[k] + g[k].second.first + ub[k]++; }
    ix[i] = Index<Q>(sc, x.GetDir());
  }
  QLTensor<E, Q> R(ix); CoorsT o(r);
  const_cast<QLTensor<E, Q> *>(a)->walk([&](size_t n, const CoorsT &x) { for (size_t i = 0; i < r; ++i) o[i] = ma[i][x[i]]; R.d_[R.off(o)] += a->d_[n]; });
  const_cast<QLTensor<E, Q> *>(b)->walk([&](size_t n, const CoorsT &x) { for (size_t i = 0; i < r; ++i) o[i] = mb[i][x[i]]; R.d_[R.off(o)] += b->d_[n]; });
  R.div_ = a->div_ ? a->div_ : b->div_; *c = std::move(R);
}

// isometry fusing two legs: legs {i1, i2, fused(new_dir)}
template<typename E, typename Q> QLTensor<E, Q> IndexCombine(const Index<Q> &i1, const Index<Q> &i2, TenIndexDirType dir) {
  auto qa = i1.charges(), qb = i2.charges(); std::vector<std::pair<Q, std::vector<std::pair<size_t, size_t>>>> g;
  for (size_t x = 0; x < qa.size(); ++x) for (size_t y = 0; y < qb.size(); ++y) { Q q = (i1.GetDir() == IN ? -qa[x] : qa[x]) + (i2.GetDir() == IN ? -qb[y] : qb[y]); if (dir == OUT) q = -q; size_t k = 0; for (; k < g.size(); ++k) if (g[k].first == q) break; if (k == g.size()) g.push_back({q, {}}); g[k].second.push_back({x, y}); }
  QNSectorVec<Q> sc; for (auto &p : g) sc.emplace_back(p.first, p.second.size());
  QLTensor<E, Q> t({i1, i2, Index<Q>(sc, dir)}); size_t n = 0; for (auto &p : g) for (auto &xy : p.second) t({xy.first, xy.second, n++}) = E(1); return t;
}

// ---- matrix views with charge sectors: rows = first ldims legs, row charge q_L with q_L = lqndiv for the middle leg
template<typename E, typename Q> struct Sectors { std::vector<Q> q; std::vector<std::vector<size_t>> rows, cols; };
template<typename E, typename Q> Sectors<E, Q> MakeSectors(const QLTensor<E, Q> &t, size_t ld, const Q &lq) {
  Sectors<E, Q> s; std::vector<std::vector<Q>> ch; for (auto &i : t.GetIndexes()) ch.push_back(i.charges());
  auto sum = [&](size_t lo, size_t hi, const CoorsT &c) { Q q; for (size_t i = lo; i < hi; ++i) q = t.GetIndex(i).GetDir() == IN ? q - ch[i][c[i - lo]] : q + ch[i][c[i - lo]]; return q; };
  auto enumr = [&](size_t lo, size_t hi, auto f) { size_t n = 1; for (size_t i = lo; i < hi; ++i) n *= t.GetShape()[i]; CoorsT c(hi - lo, 0); for (size_t k = 0; k < n; ++k) { f(k, sum(lo, hi, c)); for (size_t i = hi - lo; i-- > 0;) { if (++c[i] < t.GetShape()[lo + i]) break; c[i] = 0; } } };
  // middle leg OUT of u with charge m: rowcharge + m = lq
  enumr(0, ld, [&](size_t k, const Q &q) { Q m = lq - q; size_t p = 0; for (; p < s.q.size(); ++p) if (s.q[p] == m) break; if (p == s.q.size()) { s.q.push_back(m); s.rows.push_back({}); s.cols.push_back({}); } s.rows[p].push_back(k); });
  Q rd = t.Div() - lq;  // v: -m + colcharge = rd
  enumr(ld, t.Rank(), [&](size_t k, const Q &q) { Q m = q - rd; for (size_t p = 0; p < s.q.size(); ++p) if (s.q[p] == m) s.cols[p].push_back(k); });
  return s;
}
template<typename E, typename Q, typename R> void SVD(const QLTensor<E, Q> *t, const size_t ld, const Q &lq, const R trunc_err, const size_t Dmin, const size_t Dmax, QLTensor<E, Q> *u, QLTensor<typename RealTypeTrait<E>::type, Q> *s, QLTensor<E, Q> *vt, typename RealTypeTrait<E>::type *perr, size_t *pD) {
  using RT = typename RealTypeTrait<E>::type; using Mat = dla::Mat<E>;
  if (ld == 0 || ld >= t->Rank()) throw std::runtime_error("stand-in: SVD split");
  auto sec = MakeSectors(*t, ld, lq); size_t NC = 1; for (size_t i = ld; i < t->Rank(); ++i) NC *= t->GetShape()[i]; size_t NR = t->d_.size() / NC;
  struct B { size_t p; Mat U, V; std::vector<RT> S; size_t keep = 0; }; std::vector<B> bs; std::vector<std::pair<RT, size_t>> all; double tot = 0;
  for (size_t p = 0; p < sec.q.size(); ++p) { auto &r = sec.rows[p], &c = sec.cols[p]; if (r.empty() || c.empty()) continue; Mat m(r.size(), c.size()); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) m(i, j) = t->d_[r[i] * NC + c[j]];
    B b; b.p = p; dla::svd(m, b.U, b.S, b.V); for (size_t k = 0; k < b.S.size(); ++k) { all.push_back({b.S[k], bs.size()}); tot += (double) b.S[k] * b.S[k]; } bs.push_back(std::move(b)); }
  std::sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.first > b.first; });
  size_t nz = 0; for (auto &x : all) if (x.first > 0) ++nz;   // exact zeros are never kept
  size_t D = std::min(nz, Dmax); double kept = 0, err = 0; for (size_t k = 0; k < D; ++k) kept += (double) all[k].first * all[k].first;
  err = tot > 0 ? std::max(0.0, 1 - kept / tot) : 0;
  // shrink while the discarded weight stays within trunc_err
  { double disc = 0; for (size_t k = D; k < all.size(); ++k) disc += (double) all[k].first * all[k].first; while (D > std::max<size_t>(Dmin, 1) && D > 0) { double w = (double) all[D - 1].first * all[D - 1].first; if (tot > 0 && (disc + w) / tot > trunc_err) break; disc += w; --D; } err = tot > 0 ? disc / tot : 0; }
  if (D == 0 && !all.empty()) D = 1;
  for (size_t k = 0; k < D; ++k) ++bs[all[k].second].keep;
  QNSectorVec<Q> sc; for (auto &b : bs) if (b.keep) sc.emplace_back(sec.q[b.p], b.keep);
  Index<Q> mo(sc, OUT), mi(sc, IN); IndexVec<Q> iu(t->GetIndexes().begin(), t->GetIndexes().begin() + ld), iv{mi}; iu.push_back(mo); iv.insert(iv.end(), t->GetIndexes().begin() + ld, t->GetIndexes().end());
  QLTensor<E, Q> U(iu), V(iv); QLTensor<RT, Q> S({mi, mo}); size_t o = 0; (void) NR;
  for (auto &b : bs) if (b.keep) { auto &r = sec.rows[b.p], &c = sec.cols[b.p]; for (size_t k = 0; k < b.keep; ++k) { for (size_t i = 0; i < r.size(); ++i) U.d_[r[i] * D + o + k] = b.U(i, k); for (size_t j = 0; j < c.size(); ++j) V.d_[(o + k) * NC + c[j]] = conj_(E(b.V(j, k))); S.d_[(o + k) * D + o + k] = b.S[k]; } o += b.keep; }
  U.div_ = lq; V.div_ = t->Div() - lq; S.div_ = Q(); *u = std::move(U); *s = std::move(S); *vt = std::move(V); if (perr) *perr = (RT) err; if (pD) *pD = D;
}
template<typename E, typename Q> void QR(const QLTensor<E, Q> *t, const size_t ld, const Q &lq, QLTensor<E, Q> *q, QLTensor<E, Q> *r) {
  using Mat = dla::Mat<E>;
  auto sec = MakeSectors(*t, ld, lq); size_t NC = 1; for (size_t i = ld; i < t->Rank(); ++i) NC *= t->GetShape()[i];
  struct B { size_t p; Mat Qm, R; }; std::vector<B> bs; QNSectorVec<Q> sc; size_t D = 0;
  for (size_t p = 0; p < sec.q.size(); ++p) { auto &rr = sec.rows[p], &c = sec.cols[p]; if (rr.empty() || c.empty()) continue; Mat m(rr.size(), c.size()); for (size_t i = 0; i < rr.size(); ++i) for (size_t j = 0; j < c.size(); ++j) m(i, j) = t->d_[rr[i] * NC + c[j]];
    size_t k = std::min(rr.size(), c.size()); Mat qm, rm; dla::qr(m, qm, rm); bs.push_back({p, qm, rm}); sc.emplace_back(sec.q[p], k); D += k; }
  Index<Q> mo(sc, OUT), mi(sc, IN); IndexVec<Q> iu(t->GetIndexes().begin(), t->GetIndexes().begin() + ld), iv{mi}; iu.push_back(mo); iv.insert(iv.end(), t->GetIndexes().begin() + ld, t->GetIndexes().end());
  QLTensor<E, Q> U(iu), V(iv); size_t o = 0;
  for (auto &b : bs) { auto &rr = sec.rows[b.p], &c = sec.cols[b.p]; size_t k = b.R.rows(); for (size_t x = 0; x < k; ++x) { for (size_t i = 0; i < rr.size(); ++i) U.d_[rr[i] * D + o + x] = b.Qm(i, x); for (size_t j = 0; j < c.size(); ++j) V.d_[(o + x) * NC + c[j]] = b.R(x, j); } o += k; }
  U.div_ = lq; V.div_ = t->Div() - lq; *q = std::move(U); *r = std::move(V);
}
// t = l q with q isometric; rdims legs stay with q
template<typename E, typename Q> void LQ(const QLTensor<E, Q> *t, const size_t ld, const Q &rq, QLTensor<E, Q> *l, QLTensor<E, Q> *q) {
  using Mat = dla::Mat<E>; Q lq = t->Div() - rq;
  auto sec = MakeSectors(*t, ld, lq); size_t NC = 1; for (size_t i = ld; i < t->Rank(); ++i) NC *= t->GetShape()[i];
  struct B { size_t p; Mat L, Qm; }; std::vector<B> bs; QNSectorVec<Q> sc; size_t D = 0;
  for (size_t p = 0; p < sec.q.size(); ++p) { auto &rr = sec.rows[p], &c = sec.cols[p]; if (rr.empty() || c.empty()) continue; Mat m(c.size(), rr.size()); for (size_t i = 0; i < rr.size(); ++i) for (size_t j = 0; j < c.size(); ++j) m(j, i) = conj_(t->d_[rr[i] * NC + c[j]]);
    size_t k = std::min(rr.size(), c.size()); Mat qm, rm; dla::qr(m, qm, rm); bs.push_back({p, rm.adjoint(), qm.adjoint()}); sc.emplace_back(sec.q[p], k); D += k; }
  Index<Q> mo(sc, OUT), mi(sc, IN); IndexVec<Q> iu(t->GetIndexes().begin(), t->GetIndexes().begin() + ld), iv{mi}; iu.push_back(mo); iv.insert(iv.end(), t->GetIndexes().begin() + ld, t->GetIndexes().end());
  QLTensor<E, Q> U(iu), V(iv); size_t o = 0;
  for (auto &b : bs) { auto &rr = sec.rows[b.p], &c = sec.cols[b.p]; size_t k = b.L.cols(); for (size_t x = 0; x < k; ++x) { for (size_t i = 0; i < rr.size(); ++i) U.d_[rr[i] * D + o + x] = b.L(i, x); for (size_t j = 0; j < c.size(); ++j) V.d_[(o + x) * NC + c[j]] = b.Qm(x, j); } o += k; }
  U.div_ = lq; V.div_ = rq; *l = std::move(U); *q = std::move(V);
}
// Hermitian a = u d u^dagger; u legs {a's leg 0, middle OUT}, d legs {IN, OUT}
template<typename E, typename Q> void SymMatEVD(const QLTensor<E, Q> *a, QLTensor<E, Q> *u, QLTensor<typename RealTypeTrait<E>::type, Q> *d) {
  using RT = typename RealTypeTrait<E>::type; Q z = a->Div() - a->Div(); auto sec = MakeSectors(*a, 1, z); size_t N = a->GetShape()[1], D = 0; struct B { size_t p; dla::Mat<E> V; std::vector<RT> w; }; std::vector<B> bs; QNSectorVec<Q> sc;
  for (size_t p = 0; p < sec.q.size(); ++p) { auto &r = sec.rows[p], &c = sec.cols[p]; if (r.empty() || c.empty()) continue; if (r.size() != c.size()) throw std::runtime_error("stand-in: SymMatEVD of a non-square block"); dla::Mat<E> m(r.size(), r.size()); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r.size(); ++j) m(i, j) = (a->d_[r[i] * N + c[j]] + conj_(a->d_[r[j] * N + c[i]])) / RT(2); B b; b.p = p; dla::heev(m, b.w, b.V); D += r.size(); sc.emplace_back(sec.q[p], r.size()); bs.push_back(std::move(b)); }
  Index<Q> mo(sc, OUT), mi(sc, IN); QLTensor<E, Q> U({a->GetIndex(0), mo}); QLTensor<RT, Q> S({mi, mo}); size_t o = 0;
  for (auto &b : bs) { auto &r = sec.rows[b.p]; for (size_t k = 0; k < r.size(); ++k) { for (size_t i = 0; i < r.size(); ++i) U.d_[r[i] * D + o + k] = b.V(i, k); S.d_[(o + k) * D + o + k] = b.w[k]; } o += r.size(); }
  U.div_ = z; S.div_ = z; *u = std::move(U); *d = std::move(S);
}
}  // namespace qlten
#endif
