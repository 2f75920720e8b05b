// A small exact stand-in for the neighbour search library, which is not
// installed here.  Exact answers are valid for every requested tolerance.
#ifndef VP_NABO_H
#define VP_NABO_H
#include <Eigen/Core>
#include <algorithm>
#include <limits>
#include <numeric>
#include <stdexcept>
#include <vector>

namespace Nabo {

template <typename T>
struct NearestNeighbourSearch {
  typedef Eigen::Matrix<T, Eigen::Dynamic, 1> Vector;
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> Matrix;
  typedef int Index;
  typedef Eigen::Matrix<Index, Eigen::Dynamic, 1> IndexVector;
  typedef Eigen::Matrix<Index, Eigen::Dynamic, Eigen::Dynamic> IndexMatrix;
  enum SearchType { BRUTE_FORCE = 0, KDTREE_LINEAR_HEAP, KDTREE_TREE_HEAP };
  enum SearchOptionFlags { ALLOW_SELF_MATCH = 1, SORT_RESULTS = 2 };
  static constexpr Index InvalidIndex = -1;
  static constexpr T InvalidValue = std::numeric_limits<T>::infinity();

  const Matrix& cloud;  // as in the library, the points are not copied
  const Index dim;

  static NearestNeighbourSearch* create(const Matrix& c, const Index d = std::numeric_limits<Index>::max(), const SearchType = KDTREE_LINEAR_HEAP, const unsigned = 0) {
    if (c.cols() == 0) throw std::runtime_error("Your reference cloud is empty");
    return new NearestNeighbourSearch(c, std::min<Index>(d, c.rows()));
  }
  static NearestNeighbourSearch* createKDTreeLinearHeap(const Matrix& c, const Index d = std::numeric_limits<Index>::max()) { return create(c, d); }
  static NearestNeighbourSearch* createBruteForce(const Matrix& c, const Index d = std::numeric_limits<Index>::max()) { return create(c, d); }
  virtual ~NearestNeighbourSearch() {}

  unsigned long knn(const Matrix& query, IndexMatrix& ids, Matrix& d2, const Index k = 1, const T = 0, const unsigned flags = 0, const T max_radius = std::numeric_limits<T>::infinity()) const {
    if (k > cloud.cols()) throw std::runtime_error("Requesting more points than available in cloud");
    if (query.rows() < dim || ids.rows() != k || ids.cols() != query.cols() || d2.rows() != k || d2.cols() != query.cols()) throw std::runtime_error("Matrix sizes do not fit");
    for (Index q = 0; q < query.cols(); ++q) {
      std::vector<std::pair<T, Index>> best(k, {max_radius * max_radius, InvalidIndex});
      search(0, int(order_.size()), 0, query.col(q).data(), flags & ALLOW_SELF_MATCH, best);
      for (Index j = 0; j < k; ++j) {
        ids(j, q) = best[j].second;
        d2(j, q) = best[j].second == InvalidIndex ? InvalidValue : best[j].first;
      }
    }
    return 0;
  }
  unsigned long knn(const Vector& query, IndexVector& ids, Vector& d2, const Index k = 1, const T e = 0, const unsigned flags = 0, const T r = std::numeric_limits<T>::infinity()) const {
    Matrix m = query, d(k, 1);
    IndexMatrix i(k, 1);
    const unsigned long n = knn(m, i, d, k, e, flags, r);
    ids = i.col(0);
    d2 = d.col(0);
    return n;
  }

 private:
  std::vector<Index> order_;
  std::vector<char> axis_;

  NearestNeighbourSearch(const Matrix& c, Index d) : cloud(c), dim(d), order_(c.cols()), axis_(c.cols()) {
    std::iota(order_.begin(), order_.end(), 0);
    split(0, int(order_.size()));
  }

  void split(int lo, int hi) {
    if (hi - lo <= 8) return;
    T widest = -1;
    int ax = 0;
    for (int a = 0; a < dim; ++a) {
      T mn = cloud(a, order_[lo]), mx = mn;
      for (int i = lo; i < hi; ++i) mn = std::min(mn, cloud(a, order_[i])), mx = std::max(mx, cloud(a, order_[i]));
      if (mx - mn > widest) widest = mx - mn, ax = a;
    }
    const int mid = (lo + hi) / 2;
    std::nth_element(order_.begin() + lo, order_.begin() + mid, order_.begin() + hi, [&](Index x, Index y) { return cloud(ax, x) < cloud(ax, y); });
    axis_[mid] = char(ax);
    split(lo, mid);
    split(mid + 1, hi);
  }

  void offer(Index i, const T* q, bool self, std::vector<std::pair<T, Index>>& best) const {
    T d = 0;
    for (int a = 0; a < dim; ++a) d += (cloud(a, i) - q[a]) * (cloud(a, i) - q[a]);
    if (!self && d <= std::numeric_limits<T>::epsilon()) return;
    if (!(d < best.back().first)) return;
    int j = int(best.size()) - 1;
    while (j > 0 && best[j - 1].first > d) { best[j] = best[j - 1]; --j; }
    best[j] = {d, i};
  }

  void search(int lo, int hi, int, const T* q, bool self, std::vector<std::pair<T, Index>>& best) const {
    if (hi - lo <= 8) {
      for (int i = lo; i < hi; ++i) offer(order_[i], q, self, best);
      return;
    }
    const int mid = (lo + hi) / 2;
    const T off = q[int(axis_[mid])] - cloud(axis_[mid], order_[mid]);
    if (off < 0) search(lo, mid, 0, q, self, best); else search(mid + 1, hi, 0, q, self, best);
    offer(order_[mid], q, self, best);
    if (off * off < best.back().first) {
      if (off < 0) search(mid + 1, hi, 0, q, self, best); else search(lo, mid, 0, q, self, best);
    }
  }
};

template <typename T> constexpr T NearestNeighbourSearch<T>::InvalidValue;
template <typename T> constexpr int NearestNeighbourSearch<T>::InvalidIndex;
typedef NearestNeighbourSearch<float> NNSearchF;
typedef NearestNeighbourSearch<double> NNSearchD;

}  // namespace Nabo
#endif
