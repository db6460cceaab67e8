// Minimal stream library used when repository sources are compiled to bitcode for symbolic execution.
// Replaces <ios>/<ostream>/<istream>/<sstream>/<iostream>/<iomanip> of libstdc++ (whose implementation lives in
// a binary library and cannot be encoded). Only text formatting is affected.
#pragma once
#include <iosfwd>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <bits/localefwd.h>
#include <exception>
#include <stdexcept>

extern "C" unsigned long sx_fmt_double(double v, unsigned long prec, char* out);
namespace std {
    using streamsize = long;
    class ios_base {
    public:
        using fmtflags = unsigned; using iostate = unsigned; using openmode = unsigned;
        static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256,
            showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 32 | 128 | 16, basefield = 2 | 8 | 64, floatfield = 4 | 256;
        static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static constexpr openmode in = 8, out = 16, app = 1, ate = 2, binary = 4, trunc = 32;
        struct failure : runtime_error { using runtime_error::runtime_error; };
        struct Init { };
        fmtflags _f = dec | skipws; streamsize _p = 6, _w = 0; iostate _s = 0;
        fmtflags flags() const { return _f; }
        fmtflags flags(fmtflags f) { auto o = _f; _f = f; return o; }
        fmtflags setf(fmtflags f) { auto o = _f; _f |= f; return o; }
        fmtflags setf(fmtflags f, fmtflags m) { auto o = _f; _f = (_f & ~m) | (f & m); return o; }
        void unsetf(fmtflags f) { _f &= ~f; }
        streamsize precision() const { return _p; }
        streamsize precision(streamsize p) { auto o = _p; _p = p; return o; }
        streamsize width() const { return _w; }
        streamsize width(streamsize w) { auto o = _w; _w = w; return o; }
        virtual ~ios_base() {}
    };
    template<typename C, typename T> class basic_ios : public ios_base {
    public:
        char _fillc = ' ';
        bool good() const { return _s == 0; } bool fail() const { return _s & (failbit | badbit); } bool eof() const { return _s & eofbit; } bool bad() const { return _s & badbit; }
        explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
        void clear(iostate s = 0) { _s = s; } void setstate(iostate s) { _s |= s; } iostate rdstate() const { return _s; }
        basic_ios& copyfmt(const basic_ios& o) { _f = o._f; _p = o._p; _w = o._w; _fillc = o._fillc; return *this; }
        char fill() const { return _fillc; } char fill(char c) { char o = _fillc; _fillc = c; return o; }
    };
    template<typename C, typename T> class basic_ostream : public virtual basic_ios<C, T> {
    public:
        string _buf; bool _keep = true;
        using _Self = basic_ostream;
        _Self& _raw(const char* s, size_t n) { 
            if (this->_w > (streamsize)n) { string pad((size_t)(this->_w - (streamsize)n), this->_fillc); this->_w = 0;
                if ((this->_f & ios_base::adjustfield) == ios_base::left) { _put(s, n); _put(pad.data(), pad.size()); } else { _put(pad.data(), pad.size()); _put(s, n); } return *this; }
            this->_w = 0; _put(s, n); return *this; }
        void _put(const char* s, size_t n) { if (_keep) _buf.append(s, n); }
        _Self& put(char c) { _put(&c, 1); return *this; }
        _Self& write(const char* s, streamsize n) { _put(s, (size_t)n); return *this; }
        _Self& flush() { return *this; }
        _Self& _uint(unsigned long v, bool neg, bool sgn) {
            char b[72]; int i = 72; unsigned base = (this->_f & ios_base::hex) ? 16 : (this->_f & ios_base::oct) ? 8 : 10;
            if (v == 0) b[--i] = '0';
            while (v) { unsigned d = (unsigned)(v % base); v /= base; b[--i] = (char)(d < 10 ? '0' + d : 'a' + d - 10); }
            if (base == 16 && (this->_f & ios_base::showbase)) { b[--i] = 'x'; b[--i] = '0'; }
            if (neg) b[--i] = '-'; else if (sgn && (this->_f & ios_base::showpos)) b[--i] = '+';
            return _raw(b + i, (size_t)(72 - i)); }
        _Self& _int(long v) { if ((this->_f & ios_base::hex) || (this->_f & ios_base::oct)) return _uint((unsigned long)v, false, false); return v < 0 ? _uint(0ul - (unsigned long)v, true, true) : _uint((unsigned long)v, false, true); }
        _Self& _dbl(double v) { char b[64]; unsigned long n = sx_fmt_double(v, (unsigned long)this->_p, b + 1); char* s = b + 1;
            if ((this->_f & ios_base::showpos) && *s != '-') { *--s = '+'; n++; } return _raw(s, n); }
        _Self& operator<<(int v) { return _int(v); } _Self& operator<<(unsigned v) { return _uint(v, false, false); }
        _Self& operator<<(long v) { return _int(v); } _Self& operator<<(unsigned long v) { return _uint(v, false, false); }
        _Self& operator<<(long long v) { return _int(v); } _Self& operator<<(unsigned long long v) { return _uint(v, false, false); }
        _Self& operator<<(short v) { return _int(v); } _Self& operator<<(unsigned short v) { return _uint(v, false, false); }
        _Self& operator<<(bool v) { if (this->_f & ios_base::boolalpha) return v ? _raw("true", 4) : _raw("false", 5); return _int(v); }
        _Self& operator<<(double v) { return _dbl(v); } _Self& operator<<(float v) { return _dbl(v); } _Self& operator<<(long double v) { return _dbl((double)v); }
        _Self& operator<<(const void* p) { return _uint((unsigned long)p, false, false); }
        _Self& operator<<(nullptr_t) { return _raw("nullptr", 7); }
        _Self& operator<<(_Self& (*f)(_Self&)) { return f(*this); }
        _Self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
        long tellp() const { return (long)_buf.size(); }
        basic_ostream() = default;
        virtual ~basic_ostream() {}
        struct sentry { explicit sentry(_Self&) {} explicit operator bool() const { return true; } };
    };
    using ostream = basic_ostream<char, char_traits<char>>;
    inline ostream& operator<<(ostream& o, char c) { return o._raw(&c, 1); }
    inline ostream& operator<<(ostream& o, signed char c) { return o << (char)c; }
    inline ostream& operator<<(ostream& o, unsigned char c) { return o << (char)c; }
    inline ostream& operator<<(ostream& o, const char* s) { return o._raw(s, char_traits<char>::length(s)); }
    inline ostream& operator<<(ostream& o, const string& s) { return o._raw(s.data(), s.size()); }
    inline ostream& operator<<(ostream& o, string_view s) { return o._raw(s.data(), s.size()); }
    template<typename OS, typename V> requires (is_base_of_v<ostream, OS> && !is_same_v<ostream, OS> && requires (ostream& o, const V& v) { o << v; })
    inline OS&& operator<<(OS&& o, const V& v) { static_cast<ostream&>(o) << v; return std::move(o); }
    inline ostream& endl(ostream& o) { return o.put('\n'); }
    inline ostream& ends(ostream& o) { return o.put('\0'); }
    inline ostream& flush(ostream& o) { return o; }
    inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
    inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
    inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
    inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
    inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
    inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
    inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
    inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
    inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
    inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
    inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
    inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; }
    inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
    inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
    struct _SetW { int n; }; struct _SetP { int n; }; struct _SetF { char c; };
    inline _SetW setw(int n) { return {n}; } inline _SetP setprecision(int n) { return {n}; } inline _SetF setfill(char c) { return {c}; }
    inline ostream& operator<<(ostream& o, _SetW w) { o.width(w.n); return o; }
    inline ostream& operator<<(ostream& o, _SetP w) { o.precision(w.n); return o; }
    inline ostream& operator<<(ostream& o, _SetF w) { o.fill(w.c); return o; }
    template<typename C, typename T> class basic_istream : public virtual basic_ios<C, T> {
    public:
        string _in; size_t _pos = 0;
        int peek() { return _pos < _in.size() ? (unsigned char)_in[_pos] : -1; }
        int get() { return _pos < _in.size() ? (unsigned char)_in[_pos++] : (this->_s |= 6, -1); }
        virtual ~basic_istream() {}
        void _ws() { while (_pos < _in.size() && (_in[_pos] == ' ' || _in[_pos] == '\t' || _in[_pos] == '\n')) _pos++; }
        template<typename N> basic_istream& _num(N& v) { _ws(); bool neg = false; size_t s = _pos; if (_pos < _in.size() && (_in[_pos] == '-' || _in[_pos] == '+')) neg = _in[_pos++] == '-';
            size_t d = _pos; N r = 0; while (_pos < _in.size() && _in[_pos] >= '0' && _in[_pos] <= '9') r = (N)(r * 10 + (N)(_in[_pos++] - '0')); if (_pos == d) { _pos = s; this->_s |= 4; v = 0; return *this; } v = neg ? (N)(0 - r) : r; if (_pos == _in.size()) this->_s |= 2; return *this; }
        basic_istream& operator>>(int& v) { return _num(v); } basic_istream& operator>>(unsigned& v) { return _num(v); } basic_istream& operator>>(long& v) { return _num(v); } basic_istream& operator>>(unsigned long& v) { return _num(v); } basic_istream& operator>>(long long& v) { return _num(v); } basic_istream& operator>>(unsigned long long& v) { return _num(v); }
    };
    using istream = basic_istream<char, char_traits<char>>;
    template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { };
    using iostream = basic_iostream<char, char_traits<char>>;
_GLIBCXX_BEGIN_NAMESPACE_CXX11
    template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
    public: basic_ostringstream() = default; explicit basic_ostringstream(const string& s) { this->_buf = s; } explicit basic_ostringstream(ios_base::openmode) {}
        string str() const { return this->_buf; } void str(const string& s) { this->_buf = s; } string_view view() const { return this->_buf; } };
    template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
    public: basic_stringstream() = default; explicit basic_stringstream(const string& s) { this->_buf = s; this->_in = s; }
        string str() const { return this->_buf; } void str(const string& s) { this->_buf = s; this->_in = s; this->_pos = 0; } };
    template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
    public: basic_istringstream() = default; explicit basic_istringstream(const string& s) { this->_in = s; } };
_GLIBCXX_END_NAMESPACE_CXX11
    namespace __sx { inline ostream& sink() { static ostream* o = nullptr; if (!o) { o = new ostream(); o->_keep = false; } return *o; } }
    struct _SxSink { operator ostream&() const { return __sx::sink(); } ostream& flush() const { return __sx::sink(); } };
    template<typename V> inline ostream& operator<<(const _SxSink&, const V& v) { return __sx::sink() << v; }
    inline ostream& operator<<(const _SxSink&, ostream& (*f)(ostream&)) { return f(__sx::sink()); }
    inline constexpr _SxSink cout{}, cerr{}, clog{};
}
