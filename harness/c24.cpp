// C24: names and texts
#include <stddef.h>
#include <cassert>
#include <concepts>
#include <map>
#include <algorithm>
#include <limits>
#include <functional>
#include <numeric>
#include <sstream>
#include "alg.hpp"
#include "loc.hpp"
#include "infl.hpp"
#include "utilities/alphabetic_namer.h"
#include "utilities/utf_conversion.h"
#include "scenarios/algebraic/name_table.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/locality/locality_operator_formatter.h"
#include "scenarios/locality/measurement.h"
#include "scenarios/contextual_os_helper.h"
#include "symbolic/monomial.h"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial.h"
using namespace Moment;
using A = Algebraic::AlgebraicPrecontext;
// generated names: bijective base 26, in order of length and then alphabetically
extern "C" void h_single() { size_t id = (size_t) sx_range(0, 25, "id"); bool up = sx_choose(0, 1, "upper"); AlphabeticNamer n{up}; auto s = n(id); sx_assert(s.size() == 1 && s[0] == (char) ((up ? 'A' : 'a') + id), "the first names are the letters in order"); sx_reach("end"); }
extern "C" void h_namer() { int len = (int) sx_choose(1, sx_param("length", 11), "length"); uint64_t lo = 0, size = 26; for (int k = 1; k < len; ++k) { lo += size; size *= 26; } long d = sx_choose(-sx_param("around", 30), sx_param("around", 30), "distance"); if (d < 0 && (uint64_t) -d > lo) return; uint64_t id = lo + d; std::string want; uint64_t x = id; while (true) { want.insert(want.begin(), (char) ('A' + x % 26)); if (x < 26) break; x = x / 26 - 1; } AlphabeticNamer n{true}, m{false}; auto got = n(id), low = m(id); sx_assert(got == want, "names count through the strings in order"); bool ok = low.size() == got.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = low[i] - 'a' == got[i] - 'A'; sx_assert(ok, "lower case names match upper case names"); sx_assert(AlphabeticNamer::strlen(id) == want.size() && AlphabeticNamer::level_offset(len) == lo + size, "lengths of names are exact"); sx_assert(AlphabeticNamer::index_to_name(id, false) == low, "short form"); sx_reach("end"); }
namespace {
// reference encodings of one code point
void enc8(uint32_t c, std::string& o) { if (c < 0x80) o.push_back((char) c); else if (c < 0x800) { o.push_back((char) (0xC0 + (c >> 6))); o.push_back((char) (0x80 + (c & 63))); } else if (c < 0x10000) { o.push_back((char) (0xE0 + (c >> 12))); o.push_back((char) (0x80 + ((c >> 6) & 63))); o.push_back((char) (0x80 + (c & 63))); } else { o.push_back((char) (0xF0 + (c >> 18))); o.push_back((char) (0x80 + ((c >> 12) & 63))); o.push_back((char) (0x80 + ((c >> 6) & 63))); o.push_back((char) (0x80 + (c & 63))); } }
void enc16(uint32_t c, std::u16string& o) { if (c < 0x10000) o.push_back((char16_t) c); else { uint32_t v = c - 0x10000; o.push_back((char16_t) (0xD800 + (v >> 10))); o.push_back((char16_t) (0xDC00 + (v & 1023))); } }
template<class T> bool eqs(const T& a, const T& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
}
// every valid text, of any code points, survives both conversions
extern "C" void h_utf() { int n = (int) sx_choose(0, sx_param("chars", 2), "chars"); std::string t8; std::u16string t16; for (int i = 0; i < n; ++i) { static const long lo[] = {0, 0x80, 0x800, 0xE000, 0x10000, 0x100000}, hi[] = {0x7F, 0x7FF, 0xD7FF, 0xFFFF, 0xFFFFF, 0x10FFFF}; int r = (int) sx_choose(0, 5, "kind"); uint32_t c = (uint32_t) sx_range(lo[r], hi[r], "code"); enc8(c, t8); enc16(c, t16); }
    sx_assert(UTF16toUTF8Convertor::size_in_utf8(t16) == t8.size() && UTF8toUTF16Convertor::size_in_utf16(t8) == t16.size(), "sizes are exact"); sx_assert(eqs(UTF16toUTF8Convertor::convert(t16), t8), "UTF-16 becomes the same text in UTF-8"); sx_assert(eqs(UTF8toUTF16Convertor::convert(t8), t16), "UTF-8 becomes the same text in UTF-16"); UTF16toUTF8Convertor a; UTF8toUTF16Convertor b; sx_assert(eqs(b(a(t16)), t16), "there and back gives the text"); sx_reach("end"); }
// arbitrary units stay within their buffers
extern "C" void h_junk() { int n = (int) sx_choose(0, sx_param("units", 3), "units"); bool wide = sx_choose(0, 1, "wide"); if (wide) { std::u16string s; for (int i = 0; i < n; ++i) s.push_back((char16_t) sx_range(0, 65535, "unit")); auto o = UTF16toUTF8Convertor::convert(s); sx_assert(o.size() == UTF16toUTF8Convertor::size_in_utf8(s), "output has the computed size"); } else { std::string s; for (int i = 0; i < n; ++i) s.push_back((char) sx_range(0, 255, "unit")); auto o = UTF8toUTF16Convertor::convert(s); sx_assert(o.size() == UTF8toUTF16Convertor::size_in_utf16(s), "output has the computed size"); } sx_reach("end"); }
namespace { bool letter(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); } bool inner(char c) { return letter(c) || (c >= '0' && c <= '9') || c == '_' || c == '.' || c == '|'; } }
// which names are allowed
extern "C" void h_valid() { int n = (int) sx_choose(0, sx_param("len", 3), "length"); std::string s; for (int i = 0; i < n; ++i) s.push_back((char) sx_range(1, 127, "char")); bool want = n > 0; for (int i = 0; i < n; ++i) want = want & (i ? inner(s[i]) : letter(s[i])); auto r = Algebraic::NameTable::validate_name(s); sx_assert(!r.has_value() == want, "exactly the valid names are allowed"); if (r) sx_assert(!r->empty(), "a reason is given"); sx_reach("end"); }
// names resolve to the operator they were given to, and back
extern "C" void h_names() { int n = (int) sx_choose(0, 3, "operators"), given = (int) sx_choose(0, 3, "given"); auto mode = (A::ConjugateMode) sx_choose(0, 2, "mode"); A apc{(oper_name_t) n, mode}; static const char* pool[] = {"a", "b", "ab", "x_1", "", "1a", "a*", "longer.name|with15"}; std::vector<std::string> in; bool good = n == given, single = true; for (int i = 0; i < given; ++i) { int w = (int) sx_choose(0, sx_param("pool", 7), "name"); if (w >= 4 && w <= 6) good = false; std::string s = pool[w]; for (auto& o : in) if (o == s) good = false; single = single && s.size() == 1; in.push_back(s); } std::unique_ptr<Algebraic::NameTable> t; auto copy = in; bool thrown = false; try { t = std::make_unique<Algebraic::NameTable>(apc, std::move(copy)); } catch (const std::invalid_argument&) { thrown = true; } sx_assert(thrown == !good, "unsuitable lists of names are refused"); if (!t) { sx_reach("refused"); return; }
    bool adj = mode == A::ConjugateMode::SelfAdjoint; auto at = [&](int i, bool c) -> int { return adj ? i : mode == A::ConjugateMode::Bunched ? i + (c ? n : 0) : 2 * i + (c ? 1 : 0); }; bool ok = true, back = true; for (int i = 0; i < n; ++i) for (int c = 0; c < 2; ++c) { std::string s = in[i] + (c ? "*" : ""); ok = ok && t->find(s) == at(i, c); if (adj && c) continue; std::stringstream ss; t->format_stream(ss, (oper_name_t) at(i, c)); back = back && ss.str() == s && (*t)[at(i, c)] == s; } sx_assert(ok, "each name is found at its operator"); sx_assert(back, "each operator shows its name"); sx_assert(t->all_single() == single, "tables of single letters are recognised"); sx_assert((int) t->operator_count == n, "one name per operator"); for (auto bad : {"zz", "", "a**", "*", "A"}) { thrown = false; try { (void) t->find(bad); } catch (const std::invalid_argument&) { thrown = true; } sx_assert(thrown, "unknown names are refused"); } int total = adj ? n : 2 * n; for (int id : {-1, total}) { std::stringstream ss; t->format_stream(ss, (oper_name_t) id); std::stringstream want; want << "[UNK:" << id << "]"; sx_assert(ss.str() == want.str(), "unknown operators are shown as such"); } sx_reach("end"); }
extern "C" void h_default() { int n = (int) sx_choose(0, 12, "operators"); A apc{(oper_name_t) n, (A::ConjugateMode) sx_choose(0, 2, "mode")}; Algebraic::NameTable t{apc}; bool adj = apc.self_adjoint(), ok = true; int total = (int) apc.num_operators; sx_assert(total == (adj ? n : 2 * n), "operators are counted"); for (int i = 0; i < total; ++i) { ok = ok && t.find(t[i]) == i; for (int j = 0; j < i; ++j) ok = ok && t[i] != t[j]; } sx_assert(ok, "default names are distinct and resolve"); if (n == 3) { Algebraic::NameTable u{"p", "q", "r"}; sx_assert(u.find("p") == 0 && u.find("r") == 2 && u.operator_count == 3, "tables from lists"); } sx_reach("end"); }
namespace {
std::unique_ptr<Context> context(int k) { using namespace Locality; switch (k) { case 0: case 1: case 2: case 3: case 4: al::type = k; return al::make(); case 5: { auto l = lc::layout(4); std::vector<size_t> m(l.mmts), o(l.outs); return std::make_unique<LocalityContext>(Party::MakeList(m, o)); } case 6: { auto l = lc::layout(6); std::vector<size_t> m(l.mmts), o(l.outs); return std::make_unique<LocalityContext>(Party::MakeList(m, o)); } case 7: return std::make_unique<Pauli::PauliContext>(2); case 8: return std::make_unique<Pauli::PauliContext>(4); default: { auto N = in::net(k - 9); return std::make_unique<Inflation::InflationContext>(Inflation::CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl); } } }
}
// distinct words (and signs) of a scenario are shown as distinct texts; equal ones alike
extern "C" void h_words() { int k = (int) sx_choose(sx_param("first", 0), sx_param("last", 14), "context"); auto c = context(k); int n = (int) c->size(), len = n > 5 ? 2 : (int) sx_param("len", 3); auto word = [&](const char* w) { sequence_storage_t s; int l = (int) sx_choose(0, n == 0 ? 0 : len, w); for (int i = 0; i < l; ++i) s.push_back((oper_name_t) sx_choose(0, n - 1, "letter")); return OperatorSequence{std::move(s), *c, (SequenceSignType) sx_choose(0, 3, "sign")}; }; auto u = word("first"); int style = (int) sx_choose(0, 1, "braces"); auto text = [&](const OperatorSequence& q) { std::stringstream ss; ContextualOS os{ss, *c}; os.format_info.show_braces = style; os << q; return ss.str(); }; auto a = text(u); sx_assert(!a.empty(), "every word has a text"); if (!style) sx_assert(c->format_sequence(u) == a, "both ways of formatting agree"); bool ok = true; sequence_storage_t s; while (true) { for (int g = 0; g < 4; ++g) { OperatorSequence v{sequence_storage_t(s), *c, (SequenceSignType) g}; ok = ok && (a == text(v)) == (u == v || (u.zero() && v.zero())); } size_t i = 0; while (i < s.size() && s[i] + 1 == n) s[i++] = 0; if (i < s.size()) ++s[i]; else { if ((int) s.size() == len || n == 0) break; s.push_back(0); } } sx_assert(ok, "different words have different texts"); sx_reach("end"); }
// single operators of a local scenario
extern "C" void h_oper() { using namespace Locality; auto l = lc::layout((int) sx_choose(0, 7, "layout")); std::vector<size_t> ms(l.mmts), os(l.outs); LocalityContext c{Party::MakeList(ms, os)}; auto o = lc::ops(l); NaturalLOFormatter natural; TraditionalLOFormatter traditional; const LocalityOperatorFormatter &nat = natural, &trad = traditional; std::set<std::string> seen[4]; bool ok = true; int count = 0; int m = 0; for (size_t p = 0; p < l.mmts.size(); ++p) { auto& party = c.Parties[p]; sx_assert(party.name == AlphabeticNamer::index_to_name(p, true), "parties are named in order"); for (size_t q = 0; q < l.mmts[p]; ++q, ++m) { auto& mm = party.Measurements[q]; for (size_t x = 0; x + 1 < l.outs[m]; ++x) { ++count; std::string w[4] = {nat.format(party, mm, (oper_name_t) x), nat.format(mm, (oper_name_t) x), trad.format(party, mm, (oper_name_t) x), trad.format(mm, (oper_name_t) x)}; std::stringstream s0, s2; s0 << party.name << "." << AlphabeticNamer::index_to_name(q, false) << x; s2 << party.name << x << "|" << q; ok = ok && w[0] == s0.str() && w[2] == s2.str(); for (int f = 0; f < 4; ++f) if (f % 2 == 0 || l.mmts.size() == 1) seen[f].insert(w[f]); } } } sx_assert(ok, "operators show party, measurement and outcome"); for (int f = 0; f < 4; ++f) if (f % 2 == 0 || l.mmts.size() == 1) sx_assert((int) seen[f].size() == count, "operators have distinct names"); sx_observe("n", count); (void) o; sx_reach("end"); }
namespace {
// reference grammar: [number] # digits [*]   or   number with a point   or   [-] digits [*]
bool digits(const std::string& s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
bool signed_digits(std::string s) { if (!s.empty() && (s[0] == '-' || s[0] == '+')) s.erase(0, 1); return digits(s); }
bool number(std::string s) { if (!s.empty() && (s[0] == '-' || s[0] == '+')) s.erase(0, 1); size_t p = s.find('.'); if (p == std::string::npos) return digits(s); std::string a = s.substr(0, p), b = s.substr(p + 1); return (!a.empty() || !b.empty()) && (a.empty() || digits(a)) && (b.empty() || digits(b)); }
double value(std::string s) { double sg = 1; if (s[0] == '-' || s[0] == '+') { if (s[0] == '-') sg = -1; s.erase(0, 1); } double v = 0, f = 1; bool pt = false; for (char c : s) { if (c == '.') { pt = true; continue; } if (pt) { f /= 10; v += f * (c - '0'); } else v = v * 10 + (c - '0'); } return sg * v; }
}
// texts of symbols are read by their grammar, and everything else is refused
extern "C" void h_symbol() { static const char alphabet[] = {'1', '#', '*', '-', '.', '5', '0', ' '}; int n = (int) sx_choose(0, sx_param("len", 4), "length"); std::string s; for (int i = 0; i < n; ++i) s.push_back(alphabet[sx_choose(0, sx_param("alphabet", 6), "char")]); bool good = false; double f = 1; long id = 0; bool cj = false; size_t h = s.find('#'); std::string body; if (h != std::string::npos) { body = s.substr(h + 1); std::string pre = s.substr(0, h); good = pre.empty() || number(pre); if (good && !pre.empty()) f = value(pre); if (!body.empty() && body.back() == '*') { cj = true; body.pop_back(); } good = good && signed_digits(body); if (good) { id = (long) value(body); if (id < 0) good = false; } } else if (s.find('.') != std::string::npos) { good = number(s); if (good) { f = value(s); id = 1; } } else { body = s; if (!body.empty() && body.back() == '*') { cj = true; body.pop_back(); } good = signed_digits(body); if (good) { id = (long) value(body); if (id < 0) { f = -1; id = -id; } } }
    bool thrown = false; Monomial m; try { m = Monomial{s}; } catch (const Monomial::SymbolParseException&) { thrown = true; } sx_assert(thrown == !good, "exactly the texts of symbols are read"); if (!thrown) { sx_assert(m.id == id && m.conjugated == cj && std::abs(m.factor - f) < 1e-9, "symbols are read as written"); } sx_reach("end"); }
// names of symbols and combinations
extern "C" void h_monomial() { auto c = std::make_unique<Context>(2); SymbolTable t{*c}; t.merge_in(OperatorSequence{sequence_storage_t{0, 1}, *c}); t.merge_in(OperatorSequence{sequence_storage_t{0}, *c}); auto pick = [&](const char* n) { long id = sx_choose(0, 3, n); static const double fs[] = {1, -1, 2, -0.5}; return Monomial{(symbol_name_t) id, std::complex<double>{fs[sx_choose(0, 3, "re")], (double) sx_choose(-1, 1, "im")}, id == 2 && sx_choose(0, 1, "conj")}; }; auto a = pick("a"), b = pick("b"); bool ops = sx_choose(0, 1, "operators"); StringFormatContext f{*c, t}; f.format_info.display_symbolic_as = ops ? StringFormatContext::DisplayAs::Operators : StringFormatContext::DisplayAs::SymbolIds; f.format_info.show_braces = f.format_info.hash_before_symbol_id = true; auto x = a.as_string(f), y = b.as_string(f); bool same = (a.id == 0 && b.id == 0) || (a.id == b.id && a.factor == b.factor && a.conjugated == b.conjugated); sx_assert((x == y) == same, "different monomials have different texts"); sx_reach("end"); }
