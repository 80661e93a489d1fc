// sparse symmetric storage: COO history -> CSR, against a dense model
#include "algebra_common.hpp"
#include <unistd.h>

PROPERTY(storage, 120000, 2000000, "a history of set / accumulate / read / rejected accesses on a COO matrix, converted to CSR and read back, multiplied (symmetric, upper, lower) and copied; non-trivial: at least one stored off-diagonal element and three operations") {
    uint32_t m = 1 + g.size(0, 39);
    MatCOOSymmetric<double> coo(m);
    std::map<std::pair<uint32_t, uint32_t>, double> model;
    int nops = g.size(0, 120);
    bool sparseDiag = g.coin();
    int off = 0;
    g.note("m=%u", m);
    for (int k = 0; k < nops; k++) {
        uint32_t i = g.draw(m - 1), j = g.draw(m - 1);
        if (!sparseDiag && g.coin(0.2)) j = i;
        double v = g.mixed();
        int op = g.draw(5);
        if (i > j && op != 5) std::swap(i, j);
        if (op == 5 && i > j) {
            bool threw = false;
            try {
                coo(i, j) = v;
            } catch (const std::exception&) { threw = true; }
            CHECK(threw, "lower-access", "writing (%u,%u) below the diagonal was accepted", i, j);
            continue;
        }
        if (i > j) std::swap(i, j);
        if (op == 0) {
            coo(i, j) = v;
            model[{i, j}] = v;
            g.note("(%u,%u) = %.17g", i, j, v);
        } else if (op == 4) {
            double got = coo(i, j);  // reading creates a zero
            double want = model.count({i, j}) ? model[{i, j}] : 0.0;
            CHECK(got == want, "read", "coo(%u,%u) is %.17g, should be %.17g", i, j, got, want);
        } else {
            coo(i, j) += v;
            model[{i, j}] += v;
            g.note("(%u,%u) += %.17g", i, j, v);
        }
    }
    auto A = ref::zeros(m);
    for (auto& [k, v] : model) {
        A[k.first][k.second] = A[k.second][k.first] = v;
        if (k.first != k.second) off++;
    }
    g.nontrivial(off >= 1 && nops >= 3);
    bool missing = false;
    for (uint32_t i = 0; i < m; i++) missing |= !model.count({i, i});
    g.label(missing ? "diagonal element missing" : "full diagonal");
    MatCSRSymmetric csr(coo);
    CHECK(csr.m == m, "size", "the CSR matrix has %u rows, not %u", csr.m, m);
    auto cmp = [&](const BaseCSR& c, const char* what) {
        for (uint32_t i = 0; i < m; i++)
            for (uint32_t j = 0; j < m; j++) CHECK(c(i, j) == (double)A[i][j], "element", "%s: element (%u,%u) is %.17g, should be %.17g", what, i, j, c(i, j), (double)A[i][j]);
    };
    cmp(csr, "CSR");
    for (auto& [k, v] : model) CHECK(coo(k.first, k.second) == v, "coo-changed", "the conversion changed (%u,%u)", k.first, k.second);
    MatCSRSymmetric again(coo);
    cmp(again, "second conversion");
    MatCSRSymmetric cp(csr);
    cmp(cp, "copy");
    MatCSRUpperTri up(csr);
    MatCSRLowerTri lo(csr);
    cmp(up, "as upper triangular");
    cmp(lo, "as lower triangular");
    std::vector<double> x(m), y;
    for (auto& v : x) v = g.mixed(1000);
    auto product = [&](int kind, const std::vector<double>& got) {
        for (uint32_t i = 0; i < m; i++) {
            ld want = 0, mag = 0;
            for (uint32_t j = 0; j < m; j++) {
                if (kind == 1 && j < i) continue;  // upper triangle
                if (kind == 2 && j > i) continue;  // lower triangle
                want += A[i][j] * x[j];
                mag += fabsl(A[i][j] * x[j]);
            }
            const char* names[] = {"symmetric", "upper triangular", "lower triangular"};
            CHECK(near(got[i], want, mag, 1e-13L), "product", "%s product: row %u is %.17g, should be %.17Lg", names[kind], i, got[i], want);
        }
    };
    auto fresh = [&]() {
        std::vector<double> r(m);
        for (auto& v : r) v = 1e30;  // the result vector need not be clean
        return r;
    };
    y = fresh(), mult(y, csr, x), product(0, y);
    y = fresh(), mult(y, up, x), product(1, y);
    y = fresh(), mult(y, lo, x), product(2, y);
    CHECK(!nikfemm::isnan(csr), "isnan", "isnan reports a NaN in a finite matrix");
    if (g.coin(0.3)) {  // one element becomes NaN
        uint32_t i = g.draw(m - 1), j = i + g.draw(m - 1 - i);
        coo(i, j) = NAN;
        MatCSRSymmetric bad(coo);
        CHECK(nikfemm::isnan(bad), "isnan", "isnan misses the NaN at (%u,%u)", i, j);
    }
}

PROPERTY(file, 15000, 150000, "a random symmetric matrix written to a text file and read back as a dense matrix; non-trivial: at least one off-diagonal element") {
    uint32_t m = 1 + g.size(0, 14);
    MatCOOSymmetric<double> coo(m);
    auto A = ref::zeros(m);
    bool off = false;
    for (uint32_t i = 0; i < m; i++)
        for (uint32_t j = i; j < m; j++)
            if (g.coin(0.4)) {
                double v = g.mixed();
                coo(i, j) = v;
                A[i][j] = A[j][i] = v;
                off |= i != j && v != 0;
            }
    g.nontrivial(off);
    g.note("m=%u", m);
    MatCSRSymmetric csr(coo);
    char name[] = "/tmp/pbtA01XXXXXX";
    int fd = mkstemp(name);
    ASSUME(fd >= 0);
    close(fd);
    csr.write_to_file(name);
    std::string s = pbt::slurpFile(name);
    unlink(name);
    std::istringstream is(s);
    for (uint32_t i = 0; i < m; i++) {
        std::string line;
        std::getline(is, line);
        std::istringstream ls(line);
        std::vector<double> row;
        std::string tok;
        while (ls >> tok) row.push_back(strtod(tok.c_str(), nullptr));
        CHECK(row.size() == m, "file", "row %u of the file has %zu numbers, not %u", i, row.size(), m);
        for (uint32_t j = 0; j < m; j++) CHECK(row[j] == (double)A[i][j], "file", "the file has %.17g at (%u,%u), not %.17g", row[j], i, j, (double)A[i][j]);
    }
}

PROPERTY(wide, 1500, 15000, "a matrix of up to 4e9 rows (150000 when it is converted to CSR and multiplied) with indices that agree in their low or high bits; non-trivial: two entries of a row or column whose other indices agree in the low 8 bits") {
    bool csr = g.coin(0.25);
    uint32_t m = csr ? 70000 + g.draw(80000) : 1u << 31;
    if (!csr && g.coin()) m = 0xFFFFFFFFu;
    MatCOOSymmetric<double> coo(m);
    std::map<std::pair<uint32_t, uint32_t>, double> model;
    uint32_t base = g.draw(m - 1);
    auto index = [&]() -> uint32_t {
        uint64_t step = 1ull << g.draw(31);
        uint64_t i = g.coin(0.3) ? g.draw(m - 1) : (base + step * g.draw(3)) % m;
        return i;
    };
    int n = 2 + g.size(0, 30);
    for (int k = 0; k < n; k++) {
        uint32_t i = index(), j = index();
        if (i > j) std::swap(i, j);
        double v = g.mixed();
        if (g.coin()) coo(i, j) = v, model[{i, j}] = v;
        else coo(i, j) += v, model[{i, j}] += v;
        g.note("(%u,%u) %.17g", i, j, v);
    }
    bool alike = false;
    for (auto& [k, v] : model)
        for (auto& [q, w] : model) alike |= (k.first == q.first && k.second != q.second && (k.second - q.second) % 256 == 0) || (k.second == q.second && k.first != q.first && (k.first - q.first) % 256 == 0);
    g.nontrivial(alike);
    g.label(csr ? "converted" : "coo only");
    CHECK(coo.elems.size() == model.size(), "entries", "%zu entries are stored, not %zu", coo.elems.size(), model.size());
    for (auto& [k, v] : model) CHECK(coo(k.first, k.second) == v, "read", "coo(%u,%u) is %.17g, should be %.17g", k.first, k.second, coo(k.first, k.second), v);
    if (!csr) return;
    MatCSRSymmetric A(coo);
    for (auto& [k, v] : model) CHECK(A(k.first, k.second) == v && A(k.second, k.first) == v, "element", "element (%u,%u) is %.17g, should be %.17g", k.first, k.second, A(k.first, k.second), v);
    std::vector<double> x(m, 0), y(m, 1e30);
    std::map<uint32_t, ld> want, mag;
    for (auto& [k, v] : model) x[k.first] = g.mixed(100), x[k.second] = g.mixed(100);
    for (auto& [k, v] : model) {
        want[k.first] += (ld)v * x[k.second], mag[k.first] += fabsl((ld)v * x[k.second]);
        if (k.first != k.second) want[k.second] += (ld)v * x[k.first], mag[k.second] += fabsl((ld)v * x[k.first]);
    }
    mult(y, A, x);
    for (uint32_t i = 0; i < m; i++) {
        auto w = want.find(i);
        if (w == want.end()) CHECK(y[i] == 0, "product", "row %u of the product is %.17g, should be 0", i, y[i]);
        else CHECK(near(y[i], w->second, mag[i], 1e-13L), "product", "row %u of the product is %.17g, should be %.17Lg", i, y[i], w->second);
    }
}
