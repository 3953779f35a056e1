// Matrices and numerical kernels against elementary dense arithmetic (C17).
// usage: linalg KIND SIZE PART OF DEPTH
#include "cantera/numerics/BandMatrix.h"
#include "cantera/numerics/DenseMatrix.h"
#include "cantera/numerics/SystemJacobianFactory.h"
#include "cantera/numerics/EigenSparseJacobian.h"
#include "cantera/numerics/AdaptivePreconditioner.h"
#include "cantera/numerics/funcs.h"
#include "cantera/numerics/polyfit.h"
#include "cantera/base/Array.h"
#include "cantera/base/ctexceptions.h"
#include "cantera/base/global.h"
#include <cmath>
#include <iostream>
#include <set>
using namespace Cantera;
typedef long double ld;
typedef vector<vector<double>> M;          // rows
static long nEval = 0, nTrans = 0, nState = 0, nViol = 0, nSkip = 0, nTrace = 0;
static std::set<string> seen;
static void violation(const string& key, const string& msg) {
    nViol++;
    if (!seen.insert(key).second || seen.size() > 40) return;
    std::cout << "V\t" << key << "\t" << msg.substr(0, 700) << "\n";
}
static string str(const M& a) {
    string s = "[";
    for (auto& r : a) { s += "["; for (double v : r) s += fmt::format("{:.4g} ", v); s += "]"; }
    return s + "]";
}
static string str(const vector<double>& a) { return str(M{a}); }
static bool near(double a, double b, double scale, double tol = 1e-11) { return std::abs(a - b) <= tol * scale + 1e-300 || (std::isnan(a) && std::isnan(b)); }

// exact solution by elimination with full pivoting in long double; returns the smallest pivot relative to the largest
static bool exact(const M& a, const vector<double>& b, vector<ld>& x, ld& cond) {
    size_t n = a.size();
    vector<vector<ld>> m(n, vector<ld>(n + 1));
    vector<size_t> col(n);
    for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) m[i][j] = a[i][j]; m[i][n] = b[i]; col[i] = i; }
    ld big = 0, small = 0;
    for (size_t k = 0; k < n; k++) {
        size_t pi = k, pj = k;
        for (size_t i = k; i < n; i++) for (size_t j = k; j < n; j++) if (fabsl(m[i][j]) > fabsl(m[pi][pj])) { pi = i; pj = j; }
        std::swap(m[k], m[pi]);
        if (pj != k) { for (size_t i = 0; i < n; i++) std::swap(m[i][k], m[i][pj]); std::swap(col[k], col[pj]); }
        ld p = fabsl(m[k][k]);
        if (k == 0) big = small = p; else small = std::min(small, p);
        if (p <= big * 1e-15L) return false;
        for (size_t i = k + 1; i < n; i++) {
            ld f = m[i][k] / m[k][k];
            if (f != 0) for (size_t j = k; j <= n; j++) m[i][j] -= f * m[k][j];
        }
    }
    x.assign(n, 0);
    for (size_t k = n; k-- > 0;) {
        ld s = m[k][n];
        for (size_t j = k + 1; j < n; j++) s -= m[k][j] * x[col[j]];
        x[col[k]] = s / m[k][k];
    }
    cond = n ? big / small : 1;
    return true;
}
// a zero row or column: elimination finds it in floating point arithmetic too
static bool plainlySingular(const M& a) {
    size_t n = a.size();
    for (size_t i = 0; i < n; i++) {
        bool zr = true, zc = true;
        for (size_t j = 0; j < n; j++) { if (a[i][j]) zr = false; if (a[j][i]) zc = false; }
        if (zr || zc) return true;
    }
    return false;
}
static vector<double> rhs(size_t n, int k) { vector<double> b(n); for (size_t i = 0; i < n; i++) b[i] = (i + 1) * (k ? 1.5 - i : 1.) + k; return b; }
// outcome of a solve against the exact one: thrown = error reported
static void judge(const M& a, const vector<double>& b, const vector<double>& got, bool thrown, const string& key, const string& what) {
    vector<ld> x;
    ld cond = 1;
    nEval++;
    if (!exact(a, b, x, cond)) {
        if (!thrown) {
            if (plainlySingular(a)) { violation(key + ":singular", what + ": singular matrix " + str(a) + " gives " + str(got)); return; }
            // the pivot was a rounding error: the result has a small residual all the same
            for (size_t i = 0; i < a.size(); i++) {
                ld s = -(ld) b[i], sc = fabsl(b[i]);
                for (size_t j = 0; j < a.size(); j++) { s += (ld) a[i][j] * got[j]; for (size_t k = 0; k < a.size(); k++) sc = std::max(sc, fabsl((ld) a[k][j] * got[j])); }
                if (fabsl(s) > 1e-11L * sc) { violation(key + ":residual", what + ": matrix " + str(a) + " gives " + str(got)); return; }
            }
            nSkip++;
        }
        return;
    }
    if (thrown) { violation(key + ":refused", what + ": solvable system refused: " + str(a)); return; }
    double scale = 0;
    for (auto v : x) scale = std::max(scale, (double) fabsl(v));
    for (size_t i = 0; i < x.size(); i++) if (!near(got[i], (double) x[i], scale, 1e-11 * (double) cond)) {
        violation(key, what + fmt::format(": solution of {} for {} is {}, expected {:.6g} at {}", str(a), str(b), str(got), (double) x[i], i));
        return;
    }
}

// ---- band matrices ----
struct Mirror { size_t n, kl, ku; M a; bool in(size_t i, size_t j) const { return i < n && j < n && j <= i + ku && i <= j + kl; } };
static void bandReads(const BandMatrix& A, const Mirror& m, const string& key, const string& what) {
    size_t n = m.n;
    nEval++;
    if (A.nRows() != n || A.nColumns() != n || A.nSubDiagonals() != m.kl || A.nSuperDiagonals() != m.ku || A.ldim() != 2 * m.kl + m.ku + 1) { violation(key + ":shape", what + ": shape"); return; }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        if (A(i, j) != m.a[i][j] || A.value(i, j) != m.a[i][j]) { violation(key + ":value", what + fmt::format(": entry ({},{}) is {}, expected {}", i, j, A(i, j), m.a[i][j])); return; }
    }
    for (int k = 0; k < 2; k++) {
        auto b = rhs(n, k);
        vector<double> p(n + 1, 777.), q(n + 1, 777.);
        A.mult(b.data(), p.data());
        A.leftMult(b.data(), q.data());
        for (size_t i = 0; i < n; i++) {
            double s = 0, t = 0, sc = 0, tc = 0;
            for (size_t j = 0; j < n; j++) { s += m.a[i][j] * b[j]; sc += std::abs(m.a[i][j] * b[j]); t += m.a[j][i] * b[j]; tc += std::abs(m.a[j][i] * b[j]); }
            if (!near(p[i], s, sc, 1e-14)) { violation(key + ":mult", what + fmt::format(": product {} at {}, expected {}; {}", p[i], i, s, str(m.a))); return; }
            if (!near(q[i], t, tc, 1e-14)) { violation(key + ":leftMult", what + fmt::format(": left product {} at {}, expected {}; {}", q[i], i, t, str(m.a))); return; }
        }
        if (p[n] != 777. || q[n] != 777.) violation(key + ":overrun", what + ": product writes beyond the end");
    }
    double one = 0;
    for (size_t j = 0; j < n; j++) { double s = 0; for (size_t i = 0; i < n; i++) s += std::abs(m.a[i][j]); one = std::max(one, s); }
    if (!near(A.oneNorm(), one, one, 1e-14)) violation(key + ":norm", what + fmt::format(": 1-norm {} expected {}", A.oneNorm(), one));
    double v1 = -1, v2 = -1, w1 = 1e300, w2 = 1e300;
    size_t r1 = A.checkRows(v1), r2 = A.checkColumns(v2), s1 = npos, s2 = npos;
    for (size_t i = 0; i < n; i++) {
        double x = 0, y = 0;
        for (size_t j = 0; j < n; j++) { x = std::max(x, std::abs(m.a[i][j])); y = std::max(y, std::abs(m.a[j][i])); }
        if (x < w1) { w1 = x; s1 = i; }
        if (y < w2) { w2 = y; s2 = i; }
    }
    if (n && (r1 != s1 || v1 != w1)) violation(key + ":checkRows", what + fmt::format(": smallest row {} ({}), expected {} ({})", r1, v1, s1, w1));
    if (n && (r2 != s2 || v2 != w2)) violation(key + ":checkColumns", what + fmt::format(": smallest column {} ({}), expected {} ({})", r2, v2, s2, w2));
}
static void bandSolve(BandMatrix& A, const Mirror& m, int k, const string& key, const string& what) {
    size_t n = m.n;
    if (!n) return;
    auto b = rhs(n, k);
    vector<double> x(n + 1, 777.);
    bool thrown = false;
    try { if (k == 0) A.solve(b.data(), x.data()); else { x.assign(b.begin(), b.end()); x.push_back(777.); A.solve(x.data()); } } catch (CanteraError&) { thrown = true; }
    if (x[n] != 777.) violation(key + ":overrun", what + ": solution writes beyond the end");
    x.resize(n);
    judge(m.a, b, x, thrown, key, what);
    if (!thrown && k == 1) {
        // several right-hand sides, spaced by more than n; the factorization is reused
        size_t ldb = n + 2;
        vector<double> B(3 * ldb, 55.);
        for (int c = 0; c < 3; c++) { auto bc = rhs(n, c); for (size_t i = 0; i < n; i++) B[c * ldb + i] = bc[i]; }
        try { A.solve(B.data(), 3, ldb); } catch (CanteraError&) { violation(key + ":several", what + ": refused for several right-hand sides"); return; }
        for (int c = 0; c < 3; c++) {
            judge(m.a, rhs(n, c), vector<double>(B.begin() + c * ldb, B.begin() + c * ldb + n), false, key + ":several", what);
            if (B[c * ldb + n] != 55. || B[c * ldb + n + 1] != 55.) violation(key + ":several:overrun", what + ": writes between right-hand sides");
        }
    }
}
static void band(size_t n, int part, int of) {
    static const double vals[] = {0, 1, -2, 3.5};
    long count = 0;
    for (size_t kl = 0; kl < n; kl++) for (size_t ku = 0; ku < n; ku++) {
        vector<std::pair<size_t, size_t>> pos;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (j <= i + ku && i <= j + kl) pos.push_back({i, j});
        int base = n <= 2 ? 4 : n == 3 ? (pos.size() <= 7 ? 4 : 3) : 2;
        long total = 1;
        for (size_t p = 0; p < pos.size(); p++) { total *= base; }
        long step = 1;
        while (total / step > 70000) step *= 7;      // a fixed lattice of the patterns
        BandMatrix A(n, kl, ku);
        for (long c = 0; c < total; c += step) {
            if (count++ % of != part) continue;
            Mirror m{n, kl, ku, M(n, vector<double>(n, 0.))};
            A.zero();
            long r = c;
            for (auto [i, j] : pos) {
                double v = base > 2 ? vals[r % base] : (r % base ? 1. + 0.5 * i - 0.75 * j + (i == j) * 4 + 0.125 * i * j : 0.);
                r /= base;
                m.a[i][j] = v;
                A(i, j) = v;
            }
            string what = fmt::format("band n={} kl={} ku={}", n, kl, ku);
            nTrans += pos.size();
            nState++;
            bandReads(A, m, "band", what);
            bandSolve(A, m, 0, "band:solve", what);
            bandSolve(A, m, 1, "band:solve", what);
            bandReads(A, m, "band:after", what);
            nTrace++;
        }
    }
}

// all operation sequences on a band matrix
static void bandHist(size_t n, int part, int of, int depth) {
    const int NOP = 17;
    vector<int> seq(depth, 0);
    long total = 1, c0 = 0;
    for (int d = 0; d < depth; d++) total *= NOP;
    for (long c = c0; c < total; c++) {
        if (c % of != part) continue;
        long r = c;
        for (int d = 0; d < depth; d++) { seq[d] = r % NOP; r /= NOP; }
        Mirror m{n, 1, n > 2 ? size_t(2) : size_t(0), M(n, vector<double>(n, 0.))};
        BandMatrix A(n, m.kl, m.ku, 0.), other;
        Mirror mo{0, 0, 0, M()};
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (m.in(i, j)) A(i, j) = m.a[i][j] = 2. * (i == j) + 1. / (1 + i + 2 * j);
        string what = "band history:";
        for (int d = 0; d < depth; d++) {
            size_t N = m.n;
            nTrans++;
            what += fmt::format(" {}", seq[d]);
            bool ro = false;
            switch (seq[d]) {
            case 0: if (N) { A(0, 0) = m.a[0][0] = 7.; } break;
            case 1: if (N > 1 && m.in(1, 0)) { A.value(1, 0) = m.a[1][0] = -3.; } break;
            case 2: if (N && m.in(N - 1, N - 1)) { A(N - 1, N - 1) = 0; m.a[N - 1][N - 1] = 0; } break;
            case 3: if (N > 1) { size_t i = N - 1, j = 0; if (!m.in(i, j)) { double& v = A(i, j); if (v != 0) violation("band:outside", what + fmt::format(": entry outside of the band reads {}", v)); v = 5.; ro = true; } } break;     // outside: no effect
            case 4: bandSolve(A, m, 0, "bandhist:solve", what); ro = true; break;
            case 5: bandSolve(A, m, 1, "bandhist:solve", what); ro = true; break;
            case 6: try { A.factor(); } catch (CanteraError&) {} ro = true; break;
            case 7: A.zero(); for (auto& q : m.a) for (auto& v : q) v = 0; break;
            case 8: A.bfill(1.5); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (m.in(i, j)) m.a[i][j] = 1.5; break;
            case 9: A.resize(N + 1, m.ku, m.kl, 0.25); { Mirror q{N + 1, m.ku, m.kl, M(N + 1, vector<double>(N + 1, 0.))}; for (size_t i = 0; i <= N; i++) for (size_t j = 0; j <= N; j++) if (q.in(i, j)) q.a[i][j] = .25; m = q; } break;
            case 10: if (N > 1) { A.resize(N - 1, 1, 1); m = Mirror{N - 1, 1, 1, M(N - 1, vector<double>(N - 1, 0.))}; } break;
            case 11: { BandMatrix B(A); other = B; mo = m; bandReads(B, m, "bandhist:copy", what); if (N) { B(0, 0) += 1; } } ro = true; break;      // copies are independent
            case 12: if (mo.n || other.nRows() == 0) { A = other; m = mo; } break;
            case 13: for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (m.in(i, j)) A.value(i, j) += m.a[i][j] += (i == j ? 3. : 0.), A.value(i, j) = m.a[i][j]; break;
            case 14: { const BandMatrix& C = A; if (N > 1 && C(N - 1, 0) != m.a[N - 1][0]) violation("bandhist:read", what); ro = true; } break;
            case 15: if (N) { double* p = A.ptrColumn(0); if (p + A.index(0, 0) != &A.value(0, 0) || A.colPts()[0] != p) violation("bandhist:column", what + ": column pointer"); } break;
            case 16: { try { A.factor(); double rc = A.rcond(A.oneNorm()); if (!(rc >= 0 && rc <= 1 + 1e-12)) violation("bandhist:rcond", what + fmt::format(": rcond {}", rc)); } catch (CanteraError&) {} ro = true; } break;
            }
            (void) ro;
            if (m.n) bandReads(A, m, "bandhist", what);
            if (other.nRows()) bandReads(other, mo, "bandhist:other", what);
        }
        if (m.n) bandSolve(A, m, 1, "bandhist:final", what);
        if (other.nRows()) bandSolve(other, mo, 1, "bandhist:final:other", what);
        nTrace++; nState++;
    }
}

// ---- dense matrices ----
static DenseMatrix fromM(const M& a) { DenseMatrix d(a.size(), a[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) d(i, j) = a[i][j]; return d; }
static bool equals(const DenseMatrix& d, const M& a) {
    if (d.nRows() != a.size() || d.nColumns() != a[0].size()) return false;
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) if (d(i, j) != a[i][j]) return false;
    return true;
}
static void denseOne(const M& a) {
    size_t n = a.size(), c = a[0].size();
    DenseMatrix A = fromM(a);
    string what = fmt::format("dense {}x{}", n, c);
    nState++; nTrans++;
    for (int k = 0; k < 2; k++) {
        auto b = rhs(c, k), d = rhs(n, k);
        vector<double> p(n + 1, 777.), q(c + 1, 777.), r(n + 1, 2.), s(n + 1, 777.);
        A.mult(b.data(), p.data());
        multiply(A, b.data(), s.data());
        increment(A, b.data(), r.data());
        A.leftMult(d.data(), q.data());
        nEval += 4;
        for (size_t i = 0; i < n; i++) {
            double t = 0, sc = 0;
            for (size_t j = 0; j < c; j++) { t += a[i][j] * b[j]; sc += std::abs(a[i][j] * b[j]); }
            if (!near(p[i], t, sc, 1e-14) || !near(s[i], t, sc, 1e-14)) violation("dense:mult", what + ": product " + str(a) + fmt::format(" at {} is {}, expected {}", i, p[i], t));
            if (!near(r[i], t + 2, sc + 2, 1e-14)) violation("dense:increment", what + ": increment " + str(a) + fmt::format(" at {} is {}, expected {}", i, r[i], t + 2));
        }
        for (size_t j = 0; j < c; j++) {
            double t = 0, sc = 0;
            for (size_t i = 0; i < n; i++) { t += a[i][j] * d[i]; sc += std::abs(a[i][j] * d[i]); }
            if (!near(q[j], t, sc, 1e-14)) violation("dense:leftMult", what + ": left product " + str(a) + fmt::format(" at {} is {}, expected {}", j, q[j], t));
        }
        if (p[n] != 777. || q[c] != 777. || r[n] != 2. || s[n] != 777.) violation("dense:overrun", what);
    }
    for (size_t w : {1, 3}) {
        M b(c, vector<double>(w)), want(n, vector<double>(w, 0.));
        for (size_t i = 0; i < c; i++) for (size_t j = 0; j < w; j++) b[i][j] = 1. + i - 2. * j;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < w; j++) for (size_t k = 0; k < c; k++) want[i][j] += a[i][k] * b[k][j];
        DenseMatrix B = fromM(b), P(n, w, 9.);
        A.mult(B, P);
        nEval++;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < w; j++) if (!near(P(i, j), want[i][j], 20, 1e-14)) violation("dense:matmult", what + fmt::format(": matrix product at {},{}", i, j));
        if (w == 3) {
            DenseMatrix Q(n + 1, w), R(c + 1, w);
            bool t1 = false, t2 = false;
            try { A.mult(B, Q); } catch (CanteraError&) { t1 = true; }
            try { A.mult(R, P); } catch (CanteraError&) { t2 = true; }
            if (!t1 || !t2) violation("dense:matmult:shape", what + ": wrong shape accepted");
        }
    }
    if (!equals(A, a)) violation("dense:changed", what + ": products change the matrix");
    if (n != c) {
        vector<double> b(std::max(n, c), 1.);
        bool t = false;
        try { solve(A, b.data()); } catch (CanteraError&) { t = true; }
        if (!t) violation("dense:solve:shape", what + ": non-square system accepted");
        return;
    }
    // solutions
    for (int k = 0; k < 2; k++) {
        DenseMatrix S(A);
        auto b = rhs(n, k), x = b;
        bool t = false;
        try { solve(S, x.data()); } catch (CanteraError&) { t = true; }
        judge(a, b, x, t, "dense:solve", what);
        nTrans++;
    }
    {
        DenseMatrix S, X(n, 3);
        S = A;
        for (int k = 0; k < 3; k++) { auto b = rhs(n, k); for (size_t i = 0; i < n; i++) X(i, k) = b[i]; }
        bool t = false;
        try { solve(S, X); } catch (CanteraError&) { t = true; }
        for (int k = 0; k < 3; k++) judge(a, rhs(n, k), vector<double>(X.ptrColumn(k), X.ptrColumn(k) + n), t, "dense:solve:several", what);
        nTrans++;
    }
    {
        DenseMatrix S(A);
        S.m_useReturnErrorCode = 1;
        auto b = rhs(n, 0), x = b;
        int info = 0;
        bool t = false;
        try { info = solve(S, x.data()); } catch (CanteraError&) { t = true; }
        judge(a, b, x, t || info != 0, "dense:solve:code", what);
    }
    // inverse, also of the leading block
    for (size_t nn : {n, n - 1}) {
        if (nn == 0) continue;
        DenseMatrix S(A);
        bool t = false;
        try { invert(S, nn == n ? npos : nn); } catch (CanteraError&) { t = true; }
        M lead(nn, vector<double>(nn));
        for (size_t i = 0; i < nn; i++) for (size_t j = 0; j < nn; j++) lead[i][j] = a[i][j];
        for (size_t j = 0; j < nn; j++) { vector<double> e(nn, 0.), x(nn); e[j] = 1; for (size_t i = 0; i < nn; i++) x[i] = S(i, j); judge(lead, e, x, t, nn == n ? "dense:invert" : "dense:invert:block", what); }
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (!t && (i >= nn || j >= nn) && S(i, j) != a[i][j]) violation("dense:invert:outside", what + ": entry outside of the block changed");
        nTrans++;
    }
    nTrace++;
}
static void dense(size_t n, int part, int of) {
    static const double vals[] = {0, 1, -2};
    if (n <= 3) {
        for (size_t r = 1; r <= n; r++) for (size_t c = 1; c <= n; c++) {
            if (std::max(r, c) != n) continue;
            long total = 1;
            for (size_t p = 0; p < r * c; p++) total *= 3;
            for (long k = part; k < total; k += of) { M a(r, vector<double>(c)); long q = k; for (auto& row : a) for (auto& v : row) { v = vals[q % 3]; q /= 3; } denseOne(a); }
        }
    } else {
        for (long k = part; k < 65536; k += of) { M a(4, vector<double>(4)); for (int i = 0; i < 16; i++) a[i / 4][i % 4] = (k >> i & 1) ? 1. + .5 * (i / 4) - .75 * (i % 4) + (i % 5 == 0) * 3 : 0.; denseOne(a); }
    }
}
static void arrayHist(int part, int of, int depth) {
    const int NOP = 12;
    long total = 1;
    for (int d = 0; d < depth; d++) total *= NOP;
    for (long c = part; c < total; c += of) for (int kind = 0; kind < 2; kind++) {
        long r = c;
        std::unique_ptr<Array2D> A;
        vector<vector<double>> cols = {{1, 2, 3}, {4, 5, 6}};       // by column
        size_t nr = 3;
        const double init[] = {1, 2, 3, 4, 5, 6};
        if (kind) { A.reset(new DenseMatrix(3, 2)); A->setColumn(0, cols[0].data()); A->setColumn(1, cols[1].data()); } else A.reset(new Array2D(3, 2, init));
        string what = kind ? "DenseMatrix:" : "Array2D:";
        for (int d = 0; d < depth; d++) {
            int op = r % NOP; r /= NOP;
            nTrans++;
            what += fmt::format(" {}", op);
            size_t nc = cols.size();
            vector<double> v(20);
            for (size_t i = 0; i < 20; i++) v[i] = 10. * (d + 1) + i;
            switch (op) {
            case 0: if (nr && nc) { A->value(nr - 1, nc - 1) = cols[nc - 1][nr - 1] = 99 + d; } break;
            case 1: if (nr) { A->setRow(0, v.data()); for (size_t j = 0; j < nc; j++) cols[j][0] = v[j]; } break;
            case 2: if (nc) { A->setColumn(nc - 1, v.data()); for (size_t i = 0; i < nr; i++) cols[nc - 1][i] = v[i]; } break;
            case 3: if (kind) break; A->appendColumn(vector<double>(v.begin(), v.begin() + nr)); cols.push_back(vector<double>(v.begin(), v.begin() + nr)); break;
            case 4: if (kind) break; A->appendColumn(v.data()); cols.push_back(vector<double>(v.begin(), v.begin() + nr)); break;
            case 5: A->zero(); for (auto& q : cols) for (auto& x : q) x = 0; break;
            case 6: Cantera::operator*=(*A, 2.); for (auto& q : cols) for (auto& x : q) x *= 2; break;
            case 7: A->resize(nr, nc + 1, 7.); cols.push_back(vector<double>(nr, 7.)); break;          // new entries take the value
            case 8: if (nc > 1) { A->resize(nr, nc - 1); cols.pop_back(); } break;
            case 9: if (nr > 1) { A->resize(nr - 1, nc); nr--; for (auto& q : cols) q.resize(nr); for (size_t j = 0; j < nc; j++) for (size_t i = 0; i < nr; i++) cols[j][i] = A->value(i, j); } break;    // values not kept in place
            case 10: if (kind) { DenseMatrix B(dynamic_cast<DenseMatrix&>(*A)), C; C = B; if (nr && nc) B(0, 0) += 1; A.reset(new DenseMatrix(C)); } else { Array2D B(*A), C; C = B; if (nr && nc) B(0, 0) += 1; A.reset(new Array2D(C)); } break;
            case 11: if (nr && nc) { vector<double> x(nc + 1, 3.), y(nr + 1, 3.); A->getRow(nr - 1, x.data()); A->getColumn(0, y.data()); for (size_t j = 0; j < nc; j++) if (x[j] != cols[j][nr - 1]) violation("array:getRow", what); for (size_t i = 0; i < nr; i++) if (y[i] != cols[0][i]) violation("array:getColumn", what); if (x[nc] != 3. || y[nr] != 3.) violation("array:overrun", what); } break;
            }
            nEval++;
            bool ok = A->nRows() == nr && A->nColumns() == cols.size() && A->data().size() == nr * cols.size();
            for (size_t j = 0; ok && j < cols.size(); j++) { for (size_t i = 0; i < nr; i++) if ((*A)(i, j) != cols[j][i]) ok = false; if (nr && A->ptrColumn(j) != &(*A)(0, j)) ok = false; }
            if (kind && ok && nr) { auto& D = dynamic_cast<DenseMatrix&>(*A); for (size_t j = 0; j < cols.size(); j++) if (D.colPts()[j] != D.ptrColumn(j)) { violation("array:colPts", what + ": column pointers"); break; } }
            if (!ok) { violation(fmt::format("array:{}", op), what + ": contents differ"); break; }
        }
        nTrace++; nState++;
    }
}

// ---- system Jacobians ----
static void jacobians(const string& type, int part, int of, int depth) {
    const int NOP = 11;
    const size_t n = 3;
    long total = 1;
    for (int d = 0; d < depth; d++) total *= NOP;
    for (long c = part; c < total; c += of) {
        long r = c;
        auto J = newSystemJacobian(type);
        bool banded = type == "banded-direct", adaptive = type == "Adaptive";
        J->setBandwidth(1);
        J->initialize(n);
        if (adaptive) { auto P = std::dynamic_pointer_cast<AdaptivePreconditioner>(J); P->setThreshold(0.); P->setIlutDropTol(1e-14); P->setIlutFillFactor(10); }
        M a(n, vector<double>(n, 0.)), f;
        bool factored = false, failed = false;
        double gamma = 1, threshold = 0, fthreshold = 0;
        string what = type + ":";
        for (int d = 0; d < depth; d++) {
            int op = r % NOP; r /= NOP;
            nTrans++;
            what += fmt::format(" {}", op);
            auto set = [&](size_t i, size_t j, double v) { J->setValue(i, j, v); if (banded) a[i][j] = v; else a[i][j] += v; if (banded) factored = false; };
            auto identity = [&](double s) { M q = a; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) q[i][j] = (i == j) - s * a[i][j]; return q; };
            auto attempt = [&](std::function<void()> g, const M& want) {
                try { g(); f = want; fthreshold = threshold; factored = true; failed = false; } catch (CanteraError&) {
                    vector<ld> x; ld cond;
                    if (exact(want, rhs(n, 0), x, cond) && !adaptive) violation("jacobian:" + type + ":refused", what + ": regular matrix refused: " + str(want));
                    factored = false; failed = true;
                } };
            switch (op) {
            case 0: for (size_t i = 0; i < n; i++) set(i, i, 2. + i); break;
            case 1: set(0, 1, -1.); set(2, 1, 0.5); break;
            case 2: set(1, 0, 3.); break;
            case 3: set(1, 1, 1.); break;
            case 4: J->reset(); for (auto& q : a) for (auto& v : q) v = 0; if (banded) factored = false; break;
            case 5: if (adaptive) { threshold = threshold ? 0. : 0.6; std::dynamic_pointer_cast<AdaptivePreconditioner>(J)->setThreshold(threshold); break; } { vector<int> mask = {1, 0, 1}; M q = a; q[0][0] -= 10.; q[2][2] -= 10.; if (adaptive) break; attempt([&] { J->updateTransient(10., mask.data()); }, q); if (banded) a = q; } break;
            case 6: { vector<int> mask = {0, 0, 0}; M q = a; if (adaptive) break; if (banded) { /* removes an earlier transient term */ } attempt([&] { J->updateTransient(0.5, mask.data()); }, q); } break;
            case 7: if (banded) break; gamma = 0.25; J->setGamma(gamma); if (J->gamma() != gamma) violation("jacobian:gamma", what); break;
            case 8: if (banded) break; attempt([&] { J->updatePreconditioner(); }, identity(gamma)); break;
            case 9: J->initialize(n); if (banded) { factored = false; } for (auto& q : a) for (auto& v : q) v = 0; if (!banded) factored = false; break;
            case 10: if (!banded) { auto E = std::dynamic_pointer_cast<EigenSparseJacobian>(J); auto S = E->jacobian(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (!near(S.coeff(i, j), a[i][j], 10)) violation("jacobian:" + type + ":read", what + ": jacobian()"); } break;
            }
            // banded: the transient term is added to the diagonal last set
            if (banded && (op == 5 || op == 6)) { /* handled below */ }
            if (factored && adaptive) {
                // an incomplete factorization: the same as that of a new object with these contents; exact for diagonal matrices
                auto P = std::dynamic_pointer_cast<AdaptivePreconditioner>(newSystemJacobian(type));
                P->initialize(n); P->setThreshold(threshold); P->setIlutDropTol(1e-14); P->setIlutFillFactor(10);
                bool diag = true;
                for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
                    // I - gamma J = f, with the entries below the threshold left out
                    double v = i != j && std::abs(f[i][j]) < fthreshold ? 0. : f[i][j];
                    if (v || i == j) P->setValue(i, j, (i == j) - v);
                    if (i != j && v) diag = false;
                }
                P->setGamma(1.); P->setThreshold(0.);
                auto b = rhs(n, d % 2);
                vector<double> x(n, 7.), y(n, 7.), bb = b;
                bool t = false, u = false;
                try { J->solve(n, bb.data(), x.data()); } catch (CanteraError&) { t = true; }
                try { P->updatePreconditioner(); P->solve(n, b.data(), y.data()); } catch (CanteraError&) { u = true; }
                nEval++;
                if (bb != b) violation("jacobian:rhs", what + ": right-hand side changed");
                if (t != u) violation("jacobian:Adaptive:outcome", what + fmt::format(": {}", t ? "refused" : "accepted"));
                else if (!t) {
                    for (size_t i = 0; i < n; i++) if (!near(x[i], y[i], std::abs(y[i]), 1e-12)) { violation("jacobian:Adaptive:fresh", what + ": " + str(x) + " while a new preconditioner gives " + str(y)); break; }
                    if (diag) for (size_t i = 0; i < n; i++) if (f[i][i] && !near(x[i], b[i] / f[i][i], std::abs(x[i]), 1e-12)) { violation("jacobian:Adaptive:diagonal", what + ": " + str(x)); break; }
                }
            } else if (factored && !(banded)) {
                auto b = rhs(n, d % 2);
                vector<double> x(n, 7.), bb = b;
                bool t = false;
                try { J->solve(n, bb.data(), x.data()); } catch (CanteraError&) { t = true; }
                if (bb != b) violation("jacobian:rhs", what + ": right-hand side changed");
                judge(f, b, x, t, "jacobian:" + type + ":solve", what);
            }
        }
        nTrace++; nState++;
    }
}
// the banded Jacobian with its separate steady-state diagonal
static void banded(int part, int of, int depth) {
    const int NOP = 9;
    const size_t n = 3;
    long total = 1;
    for (int d = 0; d < depth; d++) total *= NOP;
    for (long c = part; c < total; c += of) {
        long r = c;
        auto J = newSystemJacobian("banded-direct");
        J->initialize(n);
        J->setBandwidth(1);
        M steady(n, vector<double>(n, 0.)), f;
        bool factored = false;
        string what = "banded-direct:";
        for (int d = 0; d < depth; d++) {
            int op = r % NOP; r /= NOP;
            nTrans++;
            what += fmt::format(" {}", op);
            auto set = [&](size_t i, size_t j, double v) { J->setValue(i, j, v); steady[i][j] = v; factored = false; };
            auto transient = [&](double rdt, vector<int> mask) {
                M q = steady;
                for (size_t i = 0; i < n; i++) q[i][i] -= rdt * mask[i];
                try { J->updateTransient(rdt, mask.data()); f = q; factored = true; } catch (CanteraError&) {
                    factored = false;
                    vector<ld> x; ld cond;
                    if (exact(q, rhs(n, 0), x, cond)) violation("jacobian:banded:refused", what + ": regular matrix refused: " + str(q));
                } };
            switch (op) {
            case 0: for (size_t i = 0; i < n; i++) set(i, i, 2. + i); break;
            case 1: set(0, 1, -1.); set(2, 1, 0.5); break;
            case 2: set(1, 0, 3.); set(1, 1, 0.); break;
            case 3: J->reset(); for (auto& q : steady) for (auto& v : q) v = 0; factored = false; break;
            case 4: transient(10., {1, 0, 1}); break;
            case 5: transient(0., {1, 1, 1}); break;
            case 6: transient(2., {1, 1, 1}); break;
            case 7: J->setValue(1, 2, 4.); steady[1][2] = 4.; factored = false; break;
            case 8: J->initialize(n); J->setBandwidth(1); for (auto& q : steady) for (auto& v : q) v = 0; factored = false; break;
            }
            if (factored) for (int k = 0; k < 2; k++) {
                auto b = rhs(n, k);
                vector<double> x(n, 7.), bb = b;
                bool t = false;
                try { J->solve(n, bb.data(), x.data()); } catch (CanteraError&) { t = true; }
                if (bb != b) violation("jacobian:rhs", what + ": right-hand side changed");
                judge(f, b, x, t, "jacobian:banded:solve", what);
            }
        }
        nTrace++; nState++;
    }
}

// ---- interpolation, quadrature, polynomial fits ----
static void helpers(int part, int of) {
    const double steps[] = {0.5, 1., 2.25};
    long count = 0;
    for (size_t n = 0; n <= 6; n++) {
        long total = 1;
        for (size_t i = 1; i < n; i++) total *= 3;
        for (long c = 0; c < total; c++) {
            if (count++ % of != part) continue;
            vector<double> x(n);
            long r = c;
            for (size_t i = 0; i < n; i++) { if (i == 0) x[i] = -0.75; else { x[i] = x[i - 1] + steps[r % 3]; r /= 3; } }
            nState++;
            string what = fmt::format("grid {}", str(x));
            Eigen::ArrayXd X(n);
            for (size_t i = 0; i < n; i++) X[i] = x[i];
            // exact integrals of powers
            for (int deg = 0; deg <= 2; deg++) {
                Eigen::ArrayXd f(n);
                vector<double> fv(n);
                for (size_t i = 0; i < n; i++) f[i] = fv[i] = deg == 0 ? 3. : deg == 1 ? 2 * x[i] - 1 : x[i] * x[i] - x[i] + 1;
                auto F = [&](double t) { return deg == 0 ? 3 * t : deg == 1 ? t * t - t : t * t * t / 3 - t * t / 2 + t; };
                nTrans += 2;
                for (string meth : {"trapezoidal", "simpson"}) {
                    double got = NAN;
                    bool t = false;
                    nEval++;
                    if (n == 0) { nSkip++; continue; }
                    try { got = numericalQuadrature(meth, f, X); } catch (CanteraError&) { t = true; }
                    if (n == 1) { if (!t && got != 0) violation("quadrature:" + meth + ":one", what + fmt::format(": {} over one point", got)); continue; }
                    if (t) { violation("quadrature:" + meth + ":refused", what); continue; }
                    double want = F(x[n - 1]) - F(x[0]);
                    if (meth == "trapezoidal" || n == 2) { want = 0; for (size_t i = 1; i < n; i++) want += (f[i] + f[i - 1]) * (x[i] - x[i - 1]) / 2; }
                    else if (n % 2 == 0) want = F(x[n - 2]) - F(x[0]) + (f[n - 1] + f[n - 2]) * (x[n - 1] - x[n - 2]) / 2;
                    if (!near(got, want, 100, 1e-13)) violation("quadrature:" + meth, what + fmt::format(": degree {}: {} expected {}", deg, got, want));
                }
                if (n >= 1) {
                    vector<double> at = x;
                    for (size_t i = 1; i < n; i++) { at.push_back((x[i] + x[i - 1]) / 2); at.push_back(x[i] - .01); }
                    at.push_back(x[0] - 1); at.push_back(x[n - 1] + 1);
                    for (double t : at) {
                        double want = t <= x[0] ? fv[0] : t >= x[n - 1] ? fv[n - 1] : NAN;
                        for (size_t i = 1; i < n; i++) if (t > x[i - 1] && t < x[n - 1] && t <= x[i]) { want = fv[i - 1] + (fv[i] - fv[i - 1]) * (t - x[i - 1]) / (x[i] - x[i - 1]); break; }
                        nEval++;
                        if (!near(linearInterp(t, x, fv), want, 50, 1e-13)) violation("interp", what + fmt::format(": at {} is {}, expected {}", t, linearInterp(t, x, fv), want));
                    }
                }
            }
            // faulty arguments
            if (n >= 2) {
                for (string meth : {"trapezoidal", "simpson"}) {
                    Eigen::ArrayXd f = Eigen::ArrayXd::Ones(n), Y = X, g = Eigen::ArrayXd::Ones(n + 1);
                    Y[n - 1] = Y[n - 2];
                    for (int k = 0; k < 4; k++) {
                        bool t = false;
                        nEval++;
                        try { if (k == 0) numericalQuadrature(meth, f, Y); else if (k == 1) numericalQuadrature(meth, g, X); else if (k == 2) { Eigen::ArrayXd Z = X.reverse(); numericalQuadrature(meth, f, Z); } else numericalQuadrature("spam", f, X); } catch (CanteraError&) { t = true; }
                        if (!t) violation("quadrature:" + meth + ":faulty", what + fmt::format(": faulty arguments {} accepted", k));
                    }
                }
            }
            // polynomial fits: exact for data on a polynomial, best otherwise; weights
            for (size_t deg = 0; deg <= 5 && n; deg++) for (int w = 0; w < 3; w++) for (int noise = 0; noise < 2; noise++) {
                vector<double> p(deg + 2, 777.), y(n), wt(n, 1.), q(deg + 1);
                for (size_t k = 0; k <= deg; k++) q[k] = 1.5 - 0.75 * k + (k == 2);
                for (size_t i = 0; i < n; i++) { double s = 0; for (size_t k = deg + 1; k-- > 0;) s = s * x[i] + q[k]; y[i] = s + (noise ? (i % 2 ? .25 : -.5) : 0); wt[i] = 1 + i; }
                if (w == 2) wt[0] = -1;
                double err = -1;
                bool t = false;
                nEval++; nTrans++;
                try { err = polyfit(n, deg, x.data(), y.data(), w == 0 ? nullptr : wt.data(), p.data()); } catch (CanteraError&) { t = true; }
                if (t != (deg >= n)) { violation("polyfit:degree", what + fmt::format(": degree {} {}", deg, t ? "refused" : "accepted")); continue; }
                if (t) continue;
                if (p[deg + 1] != 777.) violation("polyfit:overrun", what);
                double span = std::pow(x[n - 1] - x[0] + 1, (double) deg), rms = 0;
                vector<double> res(n);
                for (size_t i = 0; i < n; i++) { double s = 0; for (size_t k = deg + 1; k-- > 0;) s = s * x[i] + p[k]; res[i] = y[i] - s; double ww = w == 1 ? wt[i] : 1; rms += res[i] * res[i] * ww; }
                rms = std::sqrt(rms / n);
                if (!noise) for (size_t k = 0; k <= deg; k++) if (!near(p[k], q[k], 10 * span, 1e-12)) violation("polyfit:exact", what + fmt::format(": degree {} coefficient {} is {}, expected {}", deg, k, p[k], q[k]));
                if (!near(err, rms, 1 + span, 1e-11)) violation("polyfit:error", what + fmt::format(": degree {} weights {}: rms {} expected {}", deg, w, err, rms));
                // residual orthogonal to all powers
                for (size_t k = 0; k <= deg; k++) { double s = 0; for (size_t i = 0; i < n; i++) s += (w == 1 ? wt[i] : 1) * res[i] * std::pow(x[i], (double) k); if (!near(s, 0, 100 * span * span, 1e-12)) violation("polyfit:best", what + fmt::format(": degree {} weights {}: not the best fit", deg, w)); }
            }
            nTrace++;
        }
    }
}
int main(int argc, char** argv) {
    string kind = argv[1];
    size_t n = atoi(argv[2]);
    int part = atoi(argv[3]), of = atoi(argv[4]), depth = atoi(argv[5]);
    if (kind == "band") band(n, part, of);
    else if (kind == "bandhist") bandHist(n, part, of, depth);
    else if (kind == "dense") dense(n, part, of);
    else if (kind == "array") arrayHist(part, of, depth);
    else if (kind == "sparse") jacobians("eigen-sparse-direct", part, of, depth);
    else if (kind == "adaptive") jacobians("Adaptive", part, of, depth);
    else if (kind == "banded") banded(part, of, depth);
    else if (kind == "helpers") helpers(part, of);
    std::cout << "N\t" << nEval << "\t" << nTrans << "\t" << nState << "\t" << nViol << "\t" << nSkip << "\t" << nTrace << "\n";
}
