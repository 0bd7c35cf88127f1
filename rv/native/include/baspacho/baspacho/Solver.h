// Stand-in for the external BaSpaCho library, which is not installed: same interface as far as Theseus uses it, block
// storage by columns in a permuted elimination order, with only the blocks of the structure and their fill-in.
#pragma once
#include <Eigen/Dense>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <tuple>
#include <vector>

namespace BaSpaCho {
enum BackendType { BackendRef, BackendFast, BackendCuda };
struct Settings {
    bool findSparseEliminationRanges = true;
    int numThreads = 1;
    BackendType backend = BackendFast;
};
struct SparseStructure {
    std::vector<int64_t> ptrs, inds;
    SparseStructure() = default;
    SparseStructure(std::vector<int64_t>&& p, std::vector<int64_t>&& i) : ptrs(std::move(p)), inds(std::move(i)) {}
    SparseStructure(const std::vector<int64_t>& p, const std::vector<int64_t>& i) : ptrs(p), inds(i) {}
};
using MatRMaj = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;

struct Layout {
    int64_t order = 0, size = 0;
    std::vector<int64_t> dim, pos, at, start;      // dimension, position, its inverse, first row in permuted order
    std::map<std::pair<int64_t, int64_t>, int64_t> off;  // (position row >= position column) -> offset
};

struct PermutedCoalescedAccessor {
    std::shared_ptr<const Layout> l;
    int64_t check(int64_t p) const {
        if (p < 0 || p >= (int64_t)l->dim.size()) throw std::runtime_error("BaSpaCho: parameter out of range");
        return p;
    }
    int64_t paramStart(int64_t p) const { return l->start[l->pos[check(p)]]; }
    int64_t paramSize(int64_t p) const { return l->dim[check(p)]; }
    std::tuple<int64_t, int64_t, bool> blockOffset(int64_t r, int64_t c) const {
        int64_t pr = l->pos[check(r)], pc = l->pos[check(c)];
        bool flip = pr < pc;
        auto it = l->off.find(flip ? std::make_pair(pc, pr) : std::make_pair(pr, pc));
        if (it == l->off.end()) throw std::runtime_error("BaSpaCho: no such block in the structure");
        return {it->second, l->dim[flip ? r : c], flip};
    }
    Eigen::Map<MatRMaj, 0, Eigen::OuterStride<>> diagBlock(double* data, int64_t p) const {
        int64_t q = l->pos[check(p)];
        return Eigen::Map<MatRMaj, 0, Eigen::OuterStride<>>(data + l->off.at({q, q}), l->dim[p], l->dim[p],
                                                            Eigen::OuterStride<>(l->dim[p]));
    }
};

class Solver {
    std::shared_ptr<Layout> l = std::make_shared<Layout>();
    bool gpu;

    Eigen::MatrixXd dense(const double* d) const {
        Eigen::MatrixXd M = Eigen::MatrixXd::Zero(l->order, l->order);
        for (auto& [rc, o] : l->off) {
            auto [r, c] = rc;
            int64_t nr = l->dim[l->at[r]], nc = l->dim[l->at[c]];
            for (int64_t i = 0; i < nr; i++)
                for (int64_t j = 0; j < nc; j++)
                    if (r != c || j <= i) M(l->start[r] + i, l->start[c] + j) = d[o + i * nc + j];
        }
        return M;
    }

  public:
    Solver(const Settings& s, const std::vector<int64_t>& sizes, const SparseStructure& ss)
        : gpu(s.backend == BackendCuda) {
        int64_t n = sizes.size();
        if ((int64_t)ss.ptrs.size() != n + 1 || ss.ptrs.back() != (int64_t)ss.inds.size())
            throw std::runtime_error("BaSpaCho: bad structure");
        l->dim = sizes;
        l->at.resize(n);
        std::iota(l->at.begin(), l->at.end(), int64_t(0));
        std::mt19937 rng(unsigned(n * 31 + ss.inds.size()));
        std::shuffle(l->at.begin(), l->at.end(), rng);
        l->pos.resize(n);
        for (int64_t i = 0; i < n; i++) l->pos[l->at[i]] = i;
        l->start.resize(n);
        for (int64_t i = 0; i < n; i++) {
            l->start[i] = l->order;
            l->order += sizes[l->at[i]];
        }
        std::vector<std::vector<char>> on(n, std::vector<char>(n, 0));
        for (int64_t r = 0; r < n; r++) {
            on[r][r] = 1;
            for (int64_t k = ss.ptrs[r]; k < ss.ptrs[r + 1]; k++) {
                if (ss.inds[k] < 0 || ss.inds[k] >= n) throw std::runtime_error("BaSpaCho: index out of range");
                int64_t a = l->pos[r], b = l->pos[ss.inds[k]];
                on[std::max(a, b)][std::min(a, b)] = 1;
            }
        }
        for (int64_t c = 0; c < n; c++)
            for (int64_t a = c + 1; a < n; a++)
                for (int64_t b = c + 1; b <= a; b++)
                    if (on[a][c] && on[b][c]) on[a][b] = 1;
        for (int64_t c = 0; c < n; c++)
            for (int64_t r = c; r < n; r++)
                if (on[r][c]) {
                    l->off[{r, c}] = l->size;
                    l->size += sizes[l->at[r]] * sizes[l->at[c]];
                }
    }
    int64_t order() const { return l->order; }
    int64_t dataSize() const { return l->size; }
    PermutedCoalescedAccessor accessor() const { return {l}; }
    PermutedCoalescedAccessor deviceAccessor() const {
        if (!gpu) throw std::runtime_error("BaSpaCho: no device accessor in this backend");
        return {l};
    }
    void factor(double* d) const {
        Eigen::MatrixXd L = dense(d);
        for (int64_t j = 0; j < l->order; j++) {
            L(j, j) = std::sqrt(L(j, j));
            for (int64_t i = j + 1; i < l->order; i++) L(i, j) /= L(j, j);
            for (int64_t k = j + 1; k < l->order; k++)
                for (int64_t i = k; i < l->order; i++) L(i, k) -= L(i, j) * L(k, j);
        }
        for (auto& [rc, o] : l->off) {
            auto [r, c] = rc;
            int64_t nr = l->dim[l->at[r]], nc = l->dim[l->at[c]];
            for (int64_t i = 0; i < nr; i++)
                for (int64_t j = 0; j < nc; j++)
                    if (r != c || j <= i) d[o + i * nc + j] = L(l->start[r] + i, l->start[c] + j);
        }
    }
    void solve(const double* d, double* x, int64_t stride, int n) const {
        Eigen::MatrixXd L = dense(d);
        for (int k = 0; k < n; k++) {
            Eigen::Map<Eigen::VectorXd> v(x + k * stride, l->order);
            Eigen::VectorXd y = L.triangularView<Eigen::Lower>().solve(v);
            v = L.transpose().triangularView<Eigen::Upper>().solve(y);
        }
    }
    void factor(std::vector<double*>* ds) const { for (auto d : *ds) factor(d); }
    void solve(std::vector<double*>* ds, std::vector<double*>* xs, int64_t stride, int n) const {
        for (size_t i = 0; i < ds->size(); i++) solve((*ds)[i], (*xs)[i], stride, n);
    }
};
using SolverPtr = std::unique_ptr<Solver>;
inline SolverPtr createSolver(const Settings& s, const std::vector<int64_t>& sizes, const SparseStructure& ss) {
    return SolverPtr(new Solver(s, sizes, ss));
}
}  // namespace BaSpaCho
