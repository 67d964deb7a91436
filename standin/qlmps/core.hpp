// Stand-in for the small part of UltraDMRG (qlmps) that QuantumLiquids/PEPS uses.
#ifndef STANDIN_QLMPS_CORE_HPP
#define STANDIN_QLMPS_CORE_HPP
#include <cstddef>
#include <string>
#include <vector>
#include <fstream>
#include <filesystem>
#include "qlten/qlten.h"
namespace qlmps {
using namespace qlten;
inline double Real(double x) { return x; }
inline float Real(float x) { return x; }
template<class T> T Real(const std::complex<T> &x) { return x.real(); }
using qlten::IN;
using qlten::OUT;
enum MPSTenCanoType { NONE, LEFT, RIGHT };
const int kUncentralizedCenterIdx = -1;
inline bool IsPathExist(const std::string &p) { return std::filesystem::exists(p); }
inline void CreatPath(const std::string &p) { std::filesystem::create_directories(p); }

namespace mock_qlten {
// Full SVD without truncation.
template<typename T, typename Q>
void SVD(const QLTensor<T, Q> *pt, size_t ldims, const Q &lqndiv,
         QLTensor<T, Q> *pu, QLTensor<typename RealTypeTrait<T>::type, Q> *ps, QLTensor<T, Q> *pvt) {
  typename RealTypeTrait<T>::type err; size_t D;
  qlten::SVD(pt, ldims, lqndiv, typename RealTypeTrait<T>::type(0), size_t(1),
             pt->size() ? pt->size() : size_t(1), pu, ps, pvt, &err, &D);
}
}  // namespace mock_qlten

template<typename ElemT>
class DuoVector {
 public:
  explicit DuoVector(size_t n) : d_(n, nullptr) {}
  DuoVector() = default;
  DuoVector(const DuoVector &o) : d_(o.d_.size(), nullptr) {
    for (size_t i = 0; i < d_.size(); ++i) if (o.d_[i]) d_[i] = new ElemT(*o.d_[i]);
  }
  DuoVector(DuoVector &&o) noexcept : d_(std::move(o.d_)) { o.d_.clear(); }
  DuoVector &operator=(const DuoVector &o) {
    if (this == &o) return *this;
    DuoVector t(o); std::swap(d_, t.d_); return *this;
  }
  DuoVector &operator=(DuoVector &&o) noexcept { std::swap(d_, o.d_); return *this; }
  virtual ~DuoVector() { for (auto *p : d_) delete p; }
  ElemT &operator[](size_t i) { if (!d_[i]) d_[i] = new ElemT; return *d_[i]; }
  const ElemT &operator[](size_t i) const { return *d_[i]; }
  ElemT *&operator()(size_t i) { return d_[i]; }
  const ElemT *operator()(size_t i) const { return d_[i]; }
  void alloc(size_t i) { if (d_[i]) { delete d_[i]; } d_[i] = new ElemT; }
  void dealloc(size_t i) { delete d_[i]; d_[i] = nullptr; }
  void clear() { for (size_t i = 0; i < d_.size(); ++i) dealloc(i); }
  bool empty() const { for (auto *p : d_) if (p) return false; return true; }
  size_t size() const { return d_.size(); }
  const ElemT &front() const { return *d_.front(); }
  const ElemT &back() const { return *d_.back(); }
  ElemT &front() { return *d_.front(); }
  ElemT &back() { return *d_.back(); }
  std::vector<const ElemT *> cdata() const { std::vector<const ElemT *> r; for (auto *p : d_) r.push_back(p); return r; }
 private:
  std::vector<ElemT *> d_;
};

template<typename TenT>
class TenVec : public DuoVector<TenT> {
 public:
  explicit TenVec(size_t n) : DuoVector<TenT>(n) {}
  TenVec() = default;
  void LoadTen(size_t i, const std::string &f) {
    this->alloc(i); std::ifstream s(f, std::ifstream::binary); s >> (*this)[i]; s.close();
  }
  void DumpTen(size_t i, const std::string &f) const {
    std::ofstream s(f, std::ofstream::binary); s << (*this)[i]; s.close();
  }
  void DumpTen(size_t i, const std::string &f, bool release) {
    DumpTen(i, f); if (release) this->dealloc(i);
  }
};
}  // namespace qlmps
#endif
