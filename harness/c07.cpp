// C07: Pauli words against the matrices they name
#include "hx.h"
#include "scenarios/pauli/pauli_context.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/raw_polynomial.h"
#include <complex>
using namespace Moment; using namespace Moment::Pauli;
namespace { using S = sequence_storage_t; using cd = std::complex<double>;
// the four 2x2 matrices over the Gaussian integers, and their products as (matrix, power of i), found by multiplying them
struct G { int re, im; }; struct M { G e[4]; };
const M PM[4] = {{{{1,0},{0,0},{0,0},{1,0}}}, {{{0,0},{1,0},{1,0},{0,0}}}, {{{0,0},{0,-1},{0,1},{0,0}}}, {{{1,0},{0,0},{0,0},{-1,0}}}};
G gm(G a, G b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; } bool ge(G a, G b) { return a.re == b.re && a.im == b.im; }
M mm(const M& a, const M& b) { M r; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { G x = gm(a.e[2 * i], b.e[j]), y = gm(a.e[2 * i + 1], b.e[2 + j]); r.e[2 * i + j] = {x.re + y.re, x.im + y.im}; } return r; }
int PROD[16], PH[16]; void tables() { G ph[4] = {{1,0},{0,1},{-1,0},{0,-1}}; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { M m = mm(PM[a], PM[b]); for (int c = 0; c < 4; ++c) for (int k = 0; k < 4; ++k) { bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && ge(m.e[i], gm(ph[k], PM[c].e[i])); if (ok) { PROD[4 * a + b] = c; PH[4 * a + b] = k; } } } }
int power(SequenceSignType s) { return s == SequenceSignType::Positive ? 0 : s == SequenceSignType::Imaginary ? 1 : s == SequenceSignType::Negative ? 2 : 3; }
SequenceSignType sign(int p) { static const SequenceSignType t[4] = {SequenceSignType::Positive, SequenceSignType::Imaginary, SequenceSignType::Negative, SequenceSignType::NegativeImaginary}; return t[p & 3]; }
constexpr int MAXQ = 10; struct T { int n = 0, ph = 0; int p[MAXQ] = {}; };
// a letter times: on each site the product, elsewhere unchanged
void mul(T& t, int op) { for (int s = 0; s < t.n; ++s) { bool here = op / 3 == s; int i = 4 * t.p[s] + (op % 3 + 1); t.ph += here ? PH[i] : 0; t.p[s] = here ? PROD[i] : t.p[s]; } }
T mul(const T& a, const T& b) { T r = a; r.ph += b.ph; for (int s = 0; s < a.n; ++s) { int i = 4 * a.p[s] + b.p[s]; r.ph += PH[i]; r.p[s] = PROD[i]; } return r; }
T read(int n, const OperatorSequence& o) { T t; t.n = n; t.ph = power(o.get_sign()); for (auto x : o.raw()) for (int s = 0; s < n; ++s) t.p[s] += (x / 3 == s) ? x % 3 + 1 : 0; return t; }
bool same(const T& a, const T& b) { bool r = ((a.ph - b.ph) & 3) == 0; for (int s = 0; s < a.n; ++s) r = r & (a.p[s] == b.p[s]); return r; }
bool ordered(const OperatorSequence& o) { bool r = true; for (size_t i = 1; i < o.size(); ++i) r = r & (o[i - 1] / 3 < o[i] / 3); return r; }
std::unique_ptr<PauliContext> make(int n, int kind) { if (kind == 0) return std::make_unique<PauliContext>((size_t) n); if (kind == 1) return std::make_unique<PauliContext>((size_t) n, WrapType::Wrap, SymmetryType::Translational); return n % 2 ? std::make_unique<PauliContext>((size_t) n, (size_t) 1, WrapType::None) : std::make_unique<PauliContext>((size_t) 2, (size_t) n / 2, WrapType::None, SymmetryType::Translational); }
void good(const PauliContext& c, const OperatorSequence& o, const T& want, const char* id) { sx_assert(!o.zero(), "products of Pauli words are not zero"); sx_assert(ordered(o), "one operator per site, in site order"); sx_assert(o.hash() == c.hash(o.raw()), "code of the result"); sx_assert(same(read(want.n, o), want), id); }
// a canonical word: support concretised, letters symbolic
S word(int n, T& t) { S w; t.n = n; for (int s = 0; s < n; ++s) if (sx_choose(0, 1, "site")) { int p = sx_range(0, 2, "pauli"); w.push_back((oper_name_t) (3 * s + p)); t.p[s] = p + 1; } return w; }
}
extern "C" void h_words() { tables(); int n = sx_choose(1, sx_param("qubits", 3), "qubits"); auto c = make(n, sx_choose(0, 2, "kind")); S w; int len = sx_choose(0, sx_param("len", 4), "length"); T t; t.n = n; t.ph = sx_range(0, 3, "phase"); int ph = sx_concretize(t.ph); for (int i = 0; i < len; ++i) { int op = sx_range(0, 3 * n - 1, "letter"); w.push_back((oper_name_t) op); mul(t, op); } OperatorSequence o{w, *c, sign(ph)}; good(*c, o, t, "simplified word"); OperatorSequence k = o.conjugate(); T tc = t; tc.ph = -t.ph; good(*c, k, [&] { T x = read(n, o); x.ph = -x.ph; return x; }(), "conjugate");
    // the conjugate of the word is the product of its letters reversed
    T r; r.n = n; r.ph = -ph; for (int i = len; i-- > 0;) mul(r, w[i]); sx_assert(same(read(n, k), r), "conjugate reverses products"); auto can = c->get_if_canonical(w); bool in = true; for (int i = 1; i < len; ++i) in = in & (w[i - 1] / 3 < w[i] / 3); sx_assert(can.has_value() == in, "canonical"); sx_observe("hash", o.hash()); sx_observe("phase", power(o.get_sign())); sx_reach("end"); }
// long words: the sorting of many letters must keep the order on each site
extern "C" void h_long() { tables(); int n = 2, len = sx_param("long", 9); auto c = make(n, 0); S w; T t; t.n = n; int base = sx_choose(0, 2, "base"), step = sx_choose(1, 2, "step"); for (int i = 0; i < len; ++i) { int op = 3 * sx_choose(0, 1, "site") + (i == 2 || i == 6 ? (int) sx_choose(0, 2, "pauli") : (base + i * i * step) % 3); w.push_back((oper_name_t) op); mul(t, op); } OperatorSequence o{w, *c}; good(*c, o, t, "simplified word"); sx_observe("hash", o.hash()); sx_reach("end"); }
extern "C" void h_product() { tables(); int n = sx_choose(1, sx_param("qubits", 4), "qubits"); auto c = make(n, sx_choose(0, sx_param("kinds", 0), "kind")); T ta, tb; S a = word(n, ta), b = word(n, tb); ta.ph = sx_range(0, 3, "phase"); tb.ph = sx_range(0, 3, "phase"); int pa = sx_concretize(ta.ph), pb = sx_concretize(tb.ph); OperatorSequence A{a, *c, sign(pa)}, B{b, *c, sign(pb)}; good(*c, A, ta, "word"); OperatorSequence P = A * B; T ab = mul(ta, tb), ba = mul(tb, ta); good(*c, P, ab, "product");
    int anti = 0; for (int s = 0; s < n; ++s) anti ^= (ta.p[s] != 0) & (tb.p[s] != 0) & (ta.p[s] != tb.p[s]); OperatorSequence C = c->commutator(A, B), D = c->anticommutator(A, B); sx_assert(C.zero() == (anti == 0), "commutator vanishes exactly for commuting words"); sx_assert(D.zero() == (anti == 1), "anticommutator vanishes exactly for anticommuting words"); (void) ba; if (!C.zero()) good(*c, C, ab, "half commutator"); else sx_assert(C.raw().empty(), "zero has no letters"); if (!D.zero()) good(*c, D, ab, "half anticommutator"); else sx_assert(D.raw().empty(), "zero has no letters");
    OperatorSequence Z = OperatorSequence::Zero(*c); if (sx_choose(0, 1, "zero")) { sx_assert((A * Z).zero() && (Z * A).zero() && c->commutator(A, Z).zero() && c->anticommutator(Z, A).zero() && Z.conjugate().zero(), "zero"); } sx_observe("hash", P.hash()); sx_observe("phase", power(P.get_sign())); sx_reach("end"); }
// many qubits: words of arbitrary support on a longer chain
extern "C" void h_chain() { tables(); int n = MAXQ; auto c = make(n, 0); T ta, tb; ta.n = tb.n = n; S a, b; for (int k = 0; k < 2; ++k) { T& t = k ? tb : ta; S& w = k ? b : a; int s = sx_choose(0, 4, "first"), step = sx_choose(1, 3, "step"); for (; s < n; s += step) { int p = sx_range(0, 2, "pauli"); w.push_back((oper_name_t) (3 * s + p)); t.p[s] = p + 1; if (w.size() >= (size_t) sx_param("span", 4)) break; } } OperatorSequence A{a, *c}, B{b, *c}; good(*c, A * B, mul(ta, tb), "product"); S j = b; for (auto x : a) j.push_back(x); good(*c, OperatorSequence{j, *c}, mul(tb, ta), "word"); sx_reach("end"); }
// polynomials: AB - BA and AB + BA
extern "C" void h_poly() { tables(); int n = sx_choose(1, 2, "qubits"), na = sx_choose(0, 2, "terms"), nb = sx_choose(0, sx_param("terms", 2), "terms"); if (na + nb > sx_param("total", 3) && (n > 1 || na + nb > 4)) return; auto c = make(n, 0); RawPolynomial A, B; std::vector<T> ta, tb; std::vector<cd> fa, fb; for (int k = 0; k < na + nb; ++k) { T t; t.n = n; S w; for (int s = 0; s < n; ++s) { int p = sx_choose(0, 3, "pauli"); t.p[s] = p; if (p) w.push_back((oper_name_t) (3 * s + p - 1)); } cd f{(double) sx_range(-1, 2, "re"), k == 0 ? (double) sx_range(-1, 1, "im") : 0.0}; int ph = k == 1 ? (int) sx_choose(0, 3, "phase") : 0; t.ph = ph; OperatorSequence o{w, *c, sign(ph)}; if (k < na) { A.emplace_back(o, f); ta.push_back(t); fa.push_back(f); } else { B.emplace_back(o, f); tb.push_back(t); fb.push_back(f); } }
    int op = sx_choose(0, 1, "operation"); RawPolynomial R = op == 0 ? c->commutator(A, B) : c->anticommutator(A, B); std::vector<cd> want(16), got(16); static const cd I[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; auto put = [&](std::vector<cd>& v, const T& t, cd f, double k) { int i = t.p[0] + 4 * (n > 1 ? t.p[1] : 0); cd x = f * I[t.ph & 3]; v[i] += cd{x.real() * k, x.imag() * k}; };
    for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) { put(want, mul(ta[i], tb[j]), fa[i] * fb[j], 1); if (op < 2) put(want, mul(tb[j], ta[i]), fa[i] * fb[j], op == 0 ? -1 : 1); } hash_t last = 0; bool nz = true; for (auto& e : R) { sx_assert(!e.sequence.zero() && e.sequence.hash() > last && e.sequence.get_sign() == SequenceSignType::Positive, "terms in order, without phase"); last = e.sequence.hash(); nz = nz & ((e.weight.real() != 0) | (e.weight.imag() != 0)); put(got, read(n, e.sequence), e.weight, 1); } sx_assert(nz, "no zero terms"); bool ok = true; for (int i = 0; i < 16; ++i) ok = ok & (want[i].real() == got[i].real()) & (want[i].imag() == got[i].imag()); sx_assert(ok, "value"); sx_observe("terms", R.size()); sx_reach("end"); }
extern "C" void h_sigma() { tables(); int rows = sx_choose(1, 3, "rows"), cols = sx_choose(1, 3, "cols"); PauliContext c{(size_t) rows, (size_t) cols, WrapType::None}; int r = sx_choose(0, rows - 1, "row"), k = sx_choose(0, cols - 1, "col"), p = sx_choose(0, 2, "pauli"), ph = sx_choose(0, 3, "phase"); auto two = p == 0 ? c.sigmaX((oper_name_t) r, (oper_name_t) k, sign(ph)) : p == 1 ? c.sigmaY((oper_name_t) r, (oper_name_t) k, sign(ph)) : c.sigmaZ((oper_name_t) r, (oper_name_t) k, sign(ph)); oper_name_t q = (oper_name_t) (k * rows + r); auto one = p == 0 ? c.sigmaX(q, sign(ph)) : p == 1 ? c.sigmaY(q, sign(ph)) : c.sigmaZ(q, sign(ph)); sx_assert(two == one && one.size() == 1 && one[0] == 3 * q + p && one.hash() == c.hash(one.raw()) && one.get_sign() == sign(ph), "single-site operators"); sx_reach("end"); }
