// C22: vectors and matrices.
#include "frn/lib/math/fp.h"
#include "frn/lib/math/mat.h"
#include "frn/lib/math/p.h"
#include "frn/lib/math/vec.h"
#include "mon.h"
#include "ref.h"

using namespace frn::lib;
using ref::u128;
using ref::u64;

template <typename Prime>
struct Alg {
  using F = math::FpElement<Prime>;
  using V = typename Prime::ValueType;
  using M = math::Matrix<F>;
  using Vec = std::vector<F>;
  using Ref = std::vector<u128>;  // a vector, or a matrix row by row
  static constexpr std::size_t B = sizeof(V);
  static u128 p() { return B == 8 ? (u128)ref::P61 : ref::P127; }
  static const char* name() { return B == 8 ? "mp61" : "mp127"; }
  static void fail(const std::string& what, const std::string& d) { mon::violation(mon::cat("C22.", name(), ".", what), d); }

  static u128 raw(mon::Rng& g) { return (g.below(3) ? ref::shaped(g, 8 * B, p()) : ref::rand_bits(g)) % p(); }
  static F make(u128 v) { return F((V)v); }
  static u128 val(const F& f) {
    V v;
    f.ToBytes((unsigned char*)&v);
    return v;
  }
  static Ref raws(mon::Rng& g, std::size_t n) {
    Ref r(n);
    int style = (int)g.below(6);
    for (auto& x : r) x = style == 0 ? p() - 1 : style == 1 ? g.below(2) : raw(g);
    return r;
  }
  static Vec vec(const Ref& r) {
    Vec v;
    v.reserve(r.size());
    for (auto x : r) v.push_back(make(x));
    return v;
  }
  static bool same(const Vec& v, const Ref& r) {
    if (v.size() != r.size()) return false;
    for (std::size_t i = 0; i < r.size(); i++)
      if (val(v[i]) != r[i]) return false;
    return true;
  }
  static std::string show(const Ref& r) {
    std::string s = mon::cat(r.size(), ":");
    for (std::size_t i = 0; i < r.size() && i < 6; i++) s += " " + mon::dec(r[i]);
    return s;
  }
  static u64 hash(const Ref& r) {
    u64 h = r.size();
    for (auto x : r) h = mon::mix(h, mon::mix((u64)x, (u64)(x >> 64)));
    return h;
  }
  static std::size_t size(mon::Rng& g) {
    switch (g.below(9)) {
      case 8:
        return mon::near_constant(g, 1, 5000, g.below(40), 1, 1);
      case 0:
        return 0;
      case 1:
        return 1;
      case 2:
        return 2;
      case 3:
        return g.below(2000);
      default:
        return g.below(40);
    }
  }

  template <typename Op>
  static Ref zip(const Ref& a, const Ref& b, Op op) {
    Ref r(a.size());
    for (std::size_t i = 0; i < a.size(); i++) r[i] = op(a[i], b[i], p());
    return r;
  }

  static void vectors(mon::Rng& g, std::size_t of = 0) {
    namespace vv = math::vector;
    std::size_t n = of ? of : size(g);
    Ref a = raws(g, n), b = raws(g, n);
    u128 s = raw(g);
    std::string id = mon::cat("vectors ", show(a), " and ", show(b), " scalar ", mon::dec(s));
    mon::where() = id;
    Vec x = vec(a), y = vec(b);
    auto judge = [&](const char* what, const Vec& got, const Ref& want) {
      mon::eval();
      if (!same(got, want)) fail(what, id);
      if (!same(x, a) || !same(y, b)) {
        fail(mon::cat(what, ".operand-changed"), id);
        x = vec(a);
        y = vec(b);
      }
    };
    auto into = [&](const char* what, auto op, const Ref& want, const Vec& other) {
      Vec t = x;
      Vec& r = op(t, other);
      mon::eval();
      if (&r != &t) fail(mon::cat(what, ".returns"), id);
      judge(what, t, want);
    };
    Ref sum = zip(a, b, ref::addmod), diff = zip(a, b, ref::submod), prod = zip(a, b, ref::mulmod), sc(n);
    for (std::size_t i = 0; i < n; i++) sc[i] = ref::mulmod(a[i], s, p());
    judge("add", vv::Add(x, y), sum);
    judge("subtract", vv::Subtract(x, y), diff);
    judge("multiply", vv::Multiply(x, y), prod);
    judge("scale", vv::Scale(x, make(s)), sc);
    into("add-into", [](Vec& t, const Vec& o) -> Vec& { return vv::AddInto(t, o); }, sum, y);
    into("subtract-into", [](Vec& t, const Vec& o) -> Vec& { return vv::SubtractInto(t, o); }, diff, y);
    into("multiply-into", [](Vec& t, const Vec& o) -> Vec& { return vv::MultiplyInto(t, o); }, prod, y);
    into("scale-by", [&](Vec& t, const Vec&) -> Vec& { return vv::ScaleBy(t, make(s)); }, sc, y);
    // both operands the same object
    judge("add-self", vv::Add(x, x), zip(a, a, ref::addmod));
    judge("multiply-self", vv::Multiply(x, x), zip(a, a, ref::mulmod));
    {
      Vec t = x;
      vv::AddInto(t, t);
      judge("add-into-self", t, zip(a, a, ref::addmod));
      t = x;
      vv::SubtractInto(t, t);
      judge("subtract-into-self", t, Ref(n, 0));
      t = x;
      vv::MultiplyInto(t, t);
      judge("multiply-into-self", t, zip(a, a, ref::mulmod));
    }
    if (n) {  // by one of its own elements
      std::size_t k = g.below(n);
      Ref w(n);
      for (std::size_t i = 0; i < n; i++) w[i] = ref::mulmod(a[i], a[k], p());
      judge("scale-own", vv::Scale(x, x[k]), w);
      Vec t = x;
      vv::ScaleBy(t, t[k]);
      judge("scale-by-own", t, w);
    }
    u128 dot = 0, total = 0;
    for (std::size_t i = 0; i < n; i++) {
      dot = ref::addmod(dot, prod[i], p());
      total = ref::addmod(total, a[i], p());
    }
    mon::eval(2);
    if (val(vv::Dot(x, y)) != dot) fail("dot", id);
    if (val(vv::Sum(x)) != total) fail("sum", id);
    judge("reading", x, a);
    // sizes that do not match
    std::size_t m = of ? n : size(g);
    if (g.chance(1, 2)) m = n + 1;
    if (g.chance(1, 4) && n) m = n - 1;
    if (m != n) {
      Ref c = raws(g, m);
      Vec z = vec(c);
      auto refused = [&](const char* what, auto op) {
        Vec l = x, r = z;
        l.shrink_to_fit();
        r.shrink_to_fit();
        mon::eval();
        bool t = mon::throws([&] { op(l, r); });
        if (!t) fail(mon::cat(what, ".not-refused"), mon::cat(id, " sizes ", n, " and ", m));
        if (!same(l, a) || !same(r, c)) fail(mon::cat(what, ".operand-changed"), mon::cat(id, " sizes ", n, " and ", m));
        mon::count("mismatches_refused");
      };
      refused("dot", [](Vec& l, Vec& r) { vv::Dot(l, r); });
      refused("add", [](Vec& l, Vec& r) { vv::Add(l, r); });
      refused("subtract", [](Vec& l, Vec& r) { vv::Subtract(l, r); });
      refused("multiply", [](Vec& l, Vec& r) { vv::Multiply(l, r); });
      refused("add-into", [](Vec& l, Vec& r) { vv::AddInto(l, r); });
      refused("subtract-into", [](Vec& l, Vec& r) { vv::SubtractInto(l, r); });
      refused("multiply-into", [](Vec& l, Vec& r) { vv::MultiplyInto(l, r); });
    }
    mon::distinct(mon::mix(hash(a), hash(b)));
    if (g.chance(1, 500)) mon::sample(id);
  }

  static M mat(const Ref& r, std::size_t n, std::size_t m) {
    M x(n, m);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < m; j++) x(i, j) = make(r[i * m + j]);
    return x;
  }
  static bool same(const M& x, const Ref& r, std::size_t n, std::size_t m) {
    if (x.RowCount() != n || x.ColumnCount() != m) return false;
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < m; j++)
        if (val(x(i, j)) != r[i * m + j]) return false;
    return true;
  }
  static std::size_t dim(mon::Rng& g) { return g.chance(1, 20) ? mon::near_constant(g, 1, 70, 8, 1, 1) : g.chance(1, 4) ? 1 : g.chance(1, 12) ? 1 + g.below(40) : 1 + g.below(8); }

  static void matrices(mon::Rng& g, std::size_t rows = 0, std::size_t columns = 0) {
    std::size_t n = dim(g), m = dim(g), q = dim(g);
    if (g.chance(1, 4)) m = n;
    if (rows) n = rows, m = columns, q = 1;
    Ref a = raws(g, n * m), b = raws(g, n * m), c = raws(g, m * q);
    u128 s = raw(g);
    std::string id = mon::cat("matrices ", n, "x", m, " ", show(a), " and ", show(b), " scalar ", mon::dec(s));
    mon::where() = id;
    M x = mat(a, n, m), y = mat(b, n, m), z = mat(c, m, q);
    auto judge = [&](const char* what, const M& got, const Ref& want, std::size_t r, std::size_t k) {
      mon::eval();
      if (!same(got, want, r, k)) fail(what, id);
      if (!same(x, a, n, m) || !same(y, b, n, m) || !same(z, c, m, q)) {
        fail(mon::cat(what, ".operand-changed"), id);
        x = mat(a, n, m);
        y = mat(b, n, m);
        z = mat(c, m, q);
      }
    };
    auto into = [&](const char* what, auto op, const Ref& want) {
      M t = x;
      M& r = op(t);
      mon::eval();
      if (&r != &t) fail(mon::cat(what, ".returns"), id);
      judge(what, t, want, n, m);
    };
    {  // a new matrix is zero
      M w(n, m);
      judge("fresh", w, Ref(n * m, 0), n, m);
    }
    Ref sum = zip(a, b, ref::addmod), diff = zip(a, b, ref::submod), prod = zip(a, b, ref::mulmod), sc(n * m);
    for (std::size_t i = 0; i < n * m; i++) sc[i] = ref::mulmod(a[i], s, p());
    judge("matrix-add", x.Add(y), sum, n, m);
    judge("matrix-subtract", x.Subtract(y), diff, n, m);
    judge("matrix-multiply", x.Multiply(y), prod, n, m);
    judge("matrix-scale", x.Scale(make(s)), sc, n, m);
    into("matrix-add-into", [&](M& t) -> M& { return t.AddInto(y); }, sum);
    into("matrix-subtract-into", [&](M& t) -> M& { return t.SubtractInto(y); }, diff);
    into("matrix-multiply-into", [&](M& t) -> M& { return t.MultiplyInto(y); }, prod);
    into("matrix-scale-by", [&](M& t) -> M& { return t.ScaleBy(make(s)); }, sc);
    into("matrix-add-into-self", [&](M& t) -> M& { return t.AddInto(t); }, zip(a, a, ref::addmod));
    into("matrix-subtract-into-self", [&](M& t) -> M& { return t.SubtractInto(t); }, Ref(n * m, 0));
    into("matrix-multiply-into-self", [&](M& t) -> M& { return t.MultiplyInto(t); }, zip(a, a, ref::mulmod));
    {
      std::size_t i = g.below(n), j = g.below(m);
      Ref w(n * m);
      for (std::size_t k = 0; k < n * m; k++) w[k] = ref::mulmod(a[k], a[i * m + j], p());
      into("matrix-scale-by-own", [&](M& t) -> M& { return t.ScaleBy(t(i, j)); }, w);
    }
    // product
    auto product = [&](const Ref& l, const Ref& r, std::size_t rows, std::size_t inner, std::size_t cols) {
      Ref w(rows * cols, 0);
      for (std::size_t i = 0; i < rows; i++)
        for (std::size_t j = 0; j < cols; j++)
          for (std::size_t k = 0; k < inner; k++)
            w[i * cols + j] = ref::addmod(w[i * cols + j], ref::mulmod(l[i * inner + k], r[k * cols + j], p()), p());
      return w;
    };
    judge("matmul", x.MatMul(z), product(a, c, n, m, q), n, q);
    if (n == m) judge("matmul-self", x.MatMul(x), product(a, a, n, n, n), n, n);
    // submatrices
    for (int k = 0; k < 4; k++) {
      std::size_t r0 = g.below(n), r1 = r0 + 1 + g.below(n - r0), c0 = g.below(m), c1 = c0 + 1 + g.below(m - c0);
      Ref w;
      for (std::size_t i = r0; i < r1; i++)
        for (std::size_t j = c0; j < c1; j++) w.push_back(a[i * m + j]);
      judge("submatrix", x.extract_submatrix(r0, r1, c0, c1), w, r1 - r0, c1 - c0);
    }
    auto refused = [&](const char* what, auto op) {
      M l = x;
      mon::eval();
      bool t = mon::throws([&] { op(l); });
      if (!t) fail(mon::cat(what, ".not-refused"), id);
      if (!same(l, a, n, m)) fail(mon::cat(what, ".operand-changed"), id);
      mon::count("mismatches_refused");
    };
    const std::size_t big = ~(std::size_t)0;
    refused("submatrix-rows", [&](M& l) { l.extract_submatrix(g.below(n), n + 1 + g.below(3), 0, m); });
    refused("submatrix-columns", [&](M& l) { l.extract_submatrix(0, n, g.below(m), m + 1 + g.below(3)); });
    refused("submatrix-both", [&](M& l) { l.extract_submatrix(0, n + g.below(3), n, m + 1 + g.below(3)); });
    refused("submatrix-shifted", [&](M& l) { l.extract_submatrix(1 + g.below(3), n + 1, 0, m); });
    refused("submatrix-shifted-columns", [&](M& l) { l.extract_submatrix(0, n, 1 + g.below(3), m + 1); });
    refused("submatrix-beyond", [&](M& l) { l.extract_submatrix(n + 1, n + 2, 0, m); });
    refused("submatrix-beyond-columns", [&](M& l) { l.extract_submatrix(0, n, m, m + 1 + g.below(4)); });
    refused("submatrix-reversed", [&](M& l) { l.extract_submatrix(n, g.below(n), 0, m); });
    refused("submatrix-reversed-columns", [&](M& l) { l.extract_submatrix(0, n, m, g.below(m)); });
    refused("submatrix-huge", [&](M& l) { l.extract_submatrix(0, big, 0, m); });
    refused("submatrix-wrap", [&](M& l) { l.extract_submatrix(big, big, 0, m); });
    // sizes that do not match: other shape, same number of elements, transposed
    std::size_t n2 = dim(g), m2 = dim(g);
    int k = (int)g.below(4);
    if (k == 0) n2 = m, m2 = n;
    if (k == 1) n2 = n * m, m2 = 1;
    if (k == 2) n2 = n, m2 = m + 1;
    if (k == 3 && n > 1) n2 = n - 1, m2 = m;
    if (n2 != n || m2 != m) {
      M o = mat(raws(g, n2 * m2), n2, m2);
      refused("matrix-add", [&](M& l) { l.Add(o); });
      refused("matrix-subtract", [&](M& l) { l.Subtract(o); });
      refused("matrix-multiply", [&](M& l) { l.Multiply(o); });
      refused("matrix-add-into", [&](M& l) { l.AddInto(o); });
      refused("matrix-subtract-into", [&](M& l) { l.SubtractInto(o); });
      refused("matrix-multiply-into", [&](M& l) { l.MultiplyInto(o); });
      if (n2 != m) refused("matmul", [&](M& l) { l.MatMul(o); });
    }
    mon::eval(2);
    if (!mon::throws([&] { M w(0, m); }) || !mon::throws([&] { M w(n, 0); }) || !mon::throws([&] { M w(0, 0); })) fail("empty.not-refused", id);
    // text form: the rows, one per line, each with its elements in order
    {
      std::string t = x.ToString();
      std::vector<std::vector<std::string>> rows;
      std::istringstream is(t);
      std::string line;
      while (std::getline(is, line)) {
        for (auto& ch : line)
          if (ch == '[' || ch == ']' || ch == ',' || ch == ';') ch = ' ';
        std::istringstream ls(line);
        std::vector<std::string> r;
        std::string w;
        while (ls >> w) r.push_back(w);
        if (!r.empty()) rows.push_back(r);
      }
      bool ok = rows.size() == n;
      for (std::size_t i = 0; ok && i < n; i++) {
        ok = rows[i].size() == m;
        for (std::size_t j = 0; ok && j < m; j++) ok = rows[i][j] == mon::dec(a[i * m + j]);
      }
      mon::eval();
      if (!ok) fail("text", id + " text: " + t);
    }
    // copies are independent
    {
      M t = x;
      t(n - 1, m - 1) = make(ref::addmod(a[n * m - 1], 1, p()));
      judge("copy", x, a, n, m);
    }
    mon::distinct(mon::mix(hash(a), n * 1000 + m));
    if (g.chance(1, 300)) mon::sample(id);
  }

  static void vandermonde(mon::Rng& g) {
    std::size_t n = dim(g), m = dim(g);
    if (g.chance(1, 20)) m = 100;
    Ref al = raws(g, n);
    u128 base = g.chance(1, 3) ? p() - 1 - g.below(5) : g.chance(1, 3) ? g.below(3) : raw(g);
    std::string id = mon::cat("vandermonde ", n, "x", m, " alphas ", show(al), " base ", mon::dec(base));
    mon::where() = id;
    auto want = [&](const Ref& r) {
      Ref w(n * m);
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < m; j++) w[i * m + j] = ref::powmod(r[i], j, p());
      return w;
    };
    Vec alphas = vec(al);
    auto v = math::create_vandermonde_matrix(alphas, m);
    mon::eval(2);
    if (!same(v, want(al), n, m)) fail("vandermonde", id);
    if (!same(alphas, al)) fail("vandermonde.operand-changed", id);
    Ref bl(n);
    for (std::size_t i = 0; i < n; i++) bl[i] = ref::addmod(base, i, p());
    auto w = math::create_vandermonde_matrix(make(base), n, m);
    if (!same(w, want(bl), n, m)) fail("vandermonde-base", id);
    // evaluates polynomials
    Ref co = raws(g, m);
    auto e = v.MatMul(mat(co, m, 1));
    Ref pe(n);
    for (std::size_t i = 0; i < n; i++) {
      u128 acc = 0;
      for (std::size_t j = m; j-- > 0;) acc = ref::addmod(ref::mulmod(acc, al[i], p()), co[j], p());
      pe[i] = acc;
    }
    mon::eval();
    if (!same(e, pe, n, 1)) fail("vandermonde-evaluates", id);
    mon::distinct(mon::mix(hash(al), m));
  }
};

static void body() {
  mon::watchdog(30);
  ref::self_check();
  mon::Rng g(mon::base_seed());
  // long ones
  std::size_t k = 65000 + g.below(2000), l = 140000 + g.below(200000);
  if (mon::args().flavor == "o2" && mon::args().scale >= 1) {
    if (mon::args().shard == 0) l = 1050000 + g.below(100000);
    bool first = mon::args().shard % 2;
    auto both = [&](auto f) { first ? f(Alg<math::Mp61>()) : f(Alg<math::Mp127>()); };
    both([&](auto a) {
      a.vectors(g, k);
      a.vectors(g, l);
      a.matrices(g, 1, l / 4);
      a.matrices(g, l / 4, 1);
      a.matrices(g, 2 + g.below(300), 300);
    });
    mon::count("long_operands", 5);
  }
  std::size_t r = mon::rounds(5000, 150000);
  for (std::size_t i = 0; i < r; i++) {
    Alg<math::Mp61>::vectors(g);
    Alg<math::Mp127>::vectors(g);
    Alg<math::Mp61>::matrices(g);
    Alg<math::Mp127>::matrices(g);
    Alg<math::Mp61>::vandermonde(g);
    Alg<math::Mp127>::vandermonde(g);
  }
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, body); }
