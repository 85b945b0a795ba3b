// Output-stream model used when the sources are compiled for symbolic execution.
// It replaces <iostream>, <sstream>, <fstream>, <iomanip> (locale machinery and
// system calls are outside the encoding); everything written is recorded token by
// token by the engine, so numbers stay symbolic.
#ifndef QKV_STREAM_H
#define QKV_STREAM_H
#include <string>
#include <iosfwd>
#include <cstddef>
#include <exception>
extern "C" {
int qkv_out_open(const char *);
// the status is 0, or 1 when the write (or an earlier, buffered one) fails
int qkv_out_str(int, const char *, unsigned long);
int qkv_out_int(int, long);
int qkv_out_real(int, double, int);
int qkv_out_close(int);
int qkv_out_flush(int);
unsigned long qkv_fmt_int(long, char *);
unsigned long qkv_fmt_real(double, int, char *);
}
namespace std {

class ios_base {
public:
    typedef int openmode;
    typedef int fmtflags;
    typedef int iostate;
    typedef int seekdir;
    static const openmode in = 8, out = 16, app = 1, ate = 2, binary = 4, trunc = 32;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const fmtflags fixed_ = 4, scientific_ = 256;
    static const fmtflags fixed = 4, scientific = 256, floatfield = 260, left = 32, right = 128, boolalpha = 1,
        dec = 2, hex = 8, basefield = 74, adjustfield = 176, showpoint = 1024, showpos = 2048;
    ios_base() : _prec(6), _width(0), _flags(0), _state(0) {}
    virtual ~ios_base() {}
    class failure : public std::exception { public: const char * what() const noexcept { return "ios_base::failure"; } };
    long precision() const { return _prec; }
    long precision(long p) { long o = _prec; _prec = (int)p; return o; }
    long width() const { return _width; }
    long width(long p) { long o = _width; _width = (int)p; return o; }
    fmtflags flags() const { return _flags; }
    fmtflags flags(fmtflags f) { fmtflags o = _flags; _flags = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = _flags; _flags |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _flags; _flags = (_flags & ~m) | (f & m); return o; }
    void unsetf(fmtflags f) { _flags &= ~f; }
protected:
    int _prec, _width, _flags, _state;
};

inline ios_base & fixed(ios_base & b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base & scientific(ios_base & b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base & left(ios_base & b) { return b; }
inline ios_base & right(ios_base & b) { return b; }
inline ios_base & boolalpha(ios_base & b) { return b; }
inline ios_base & dec(ios_base & b) { return b; }
inline ios_base & showpoint(ios_base & b) { return b; }

// where a stream's output goes; the results are 0, or 1 on failure
template<> class basic_streambuf<char, char_traits<char> > {
public:
    virtual ~basic_streambuf() {}
    int pubsync() { return sync(); }
    long sputn(const char * p, long n) { return _put(p, n) ? 0 : n; }
    int sputc(char c) { return _put(&c, 1) ? -1 : (unsigned char)c; }
    virtual int _put(const char *, unsigned long) { return 1; }
    virtual int _int(long) { return 1; }
    virtual int _real(double, int) { return 1; }
    virtual const std::string * _text() const { return 0; }
protected:
    virtual int sync() { return 0; }
};
template<> class basic_filebuf<char, char_traits<char> > : public basic_streambuf<char, char_traits<char> > {
public:
    basic_filebuf() : _h(0) {}
    ~basic_filebuf() { if (_h) qkv_out_close(_h); }
    basic_filebuf * open(const char * n, int)
    {
        if (_h) return 0;
        _h = qkv_out_open(n);
        return _h ? this : 0;
    }
    basic_filebuf * open(const std::string & n, int m) { return open(n.c_str(), m); }
    basic_filebuf * close()
    {
        int h = _h;
        _h = 0;
        return !h || qkv_out_close(h) ? 0 : this;
    }
    bool is_open() const { return _h != 0; }
    int _put(const char * p, unsigned long n) { return _h ? qkv_out_str(_h, p, n) : 1; }
    int _int(long v) { return _h ? qkv_out_int(_h, v) : 1; }
    int _real(double v, int p) { return _h ? qkv_out_real(_h, v, p) : 1; }
protected:
    int sync() { return _h && qkv_out_flush(_h) ? -1 : 0; }
private:
    basic_filebuf(const basic_filebuf &);
    int _h;
};
template<> class basic_stringbuf<char, char_traits<char>, allocator<char> > : public basic_streambuf<char, char_traits<char> > {
public:
    basic_stringbuf() {}
    std::string str() const { return s; }
    void str(const std::string & v) { s = v; }
    int _put(const char * p, unsigned long n) { s.append(p, n); return 0; }
    int _int(long v) { char b[32]; unsigned long n = qkv_fmt_int(v, b); s.append(b, n); return 0; }
    int _real(double v, int p) { char b[64]; unsigned long n = qkv_fmt_real(v, p, b); s.append(b, n); return 0; }
    const std::string * _text() const { return &s; }
    std::string s;
};

template<> class basic_ios<char, char_traits<char> > : public ios_base {
public:
    basic_streambuf<char, char_traits<char> > * rdbuf() const { return _sb; }
    basic_streambuf<char, char_traits<char> > * rdbuf(basic_streambuf<char, char_traits<char> > * b)
    {
        basic_streambuf<char, char_traits<char> > * o = _sb;
        _sb = b;
        clear();
        return o;
    }
    bool good() const { return _state == 0; }
    bool fail() const { return (_state & (badbit | failbit)) != 0; }
    bool bad() const { return (_state & badbit) != 0; }
    bool eof() const { return (_state & eofbit) != 0; }
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    void clear(int s = 0) { _state = s; if (_state & _throws) throw ios_base::failure(); }
    void setstate(int s) { clear(_state | s); }
    iostate rdstate() const { return _state; }
    char fill() const { return ' '; }
    char fill(char) { return ' '; }
    iostate exceptions() const { return _throws; }
    void exceptions(int m) { _throws = m; clear(_state); }
protected:
    int _throws = 0;
    basic_streambuf<char, char_traits<char> > * _sb = 0;
};

struct qkv_setprecision { int n; };
struct qkv_setw { int n; };
struct qkv_setfill { char c; };
inline qkv_setprecision setprecision(int n) { qkv_setprecision r = { n }; return r; }
inline qkv_setw setw(int n) { qkv_setw r = { n }; return r; }
inline qkv_setfill setfill(char c) { qkv_setfill r = { c }; return r; }

template<> class basic_ostream<char, char_traits<char> > : virtual public basic_ios<char, char_traits<char> > {
public:
    typedef basic_ostream<char, char_traits<char> > self;
    virtual ~basic_ostream() {}
    self & operator<<(const char * s) { return _str(s, __builtin_strlen(s)); }
    self & operator<<(const std::string & s) { return _str(s.data(), s.size()); }
    self & operator<<(char c) { return _str(&c, 1); }
    self & operator<<(bool b) { _int(b); return *this; }
    self & operator<<(short v) { _int(v); return *this; }
    self & operator<<(unsigned short v) { _int(v); return *this; }
    self & operator<<(int v) { _int(v); return *this; }
    self & operator<<(unsigned v) { _int(v); return *this; }
    self & operator<<(long v) { _int(v); return *this; }
    self & operator<<(unsigned long v) { _int((long)v); return *this; }
    self & operator<<(long long v) { _int((long)v); return *this; }
    self & operator<<(unsigned long long v) { _int((long)v); return *this; }
    self & operator<<(double v) { _real(v, _prec); return *this; }
    self & operator<<(float v) { _real(v, _prec); return *this; }
    self & operator<<(const void *) { _int(0); return *this; }
    self & operator<<(self & (*f)(self &)) { return f(*this); }
    self & operator<<(ios_base & (*f)(ios_base &)) { f(*this); return *this; }
    self & operator<<(qkv_setprecision p) { _prec = p.n; return *this; }
    self & operator<<(qkv_setw) { return *this; }
    self & operator<<(qkv_setfill) { return *this; }
    self & put(char c) { return _str(&c, 1); }
    self & write(const char * s, long n) { return _str(s, n); }
    self & flush() { if (_sb && _sb->pubsync()) this->setstate(ios_base::badbit); return *this; }
    self & operator<<(basic_streambuf<char, char_traits<char> > * b)
    {
        const std::string * t = b ? b->_text() : 0;
        if (!t || t->empty()) { this->setstate(t ? ios_base::failbit : ios_base::badbit); return *this; }
        return _str(t->data(), t->size());
    }
    long tellp() { return 0; }
    explicit basic_ostream(basic_streambuf<char, char_traits<char> > * b) { this->_sb = b; }
protected:
    basic_ostream() {}
    // as the library's: nothing more is written once the stream has failed
    void done(int bad) { if (bad) this->setstate(ios_base::badbit); }
    self & _str(const char * s, unsigned long n) { if (!_state) done(!_sb || _sb->_put(s, n)); return *this; }
    void _int(long v) { if (!_state) done(!_sb || _sb->_int(v)); }
    void _real(double v, int p) { if (!_state) done(!_sb || _sb->_real(v, (_flags & 4) ? -p : ((_flags & 256) ? p + 1 : p))); }
};

inline basic_ostream<char> & endl(basic_ostream<char> & o) { return o.put('\n').flush(); }
inline basic_ostream<char> & flush(basic_ostream<char> & o) { return o.flush(); }
inline basic_ostream<char> & ends(basic_ostream<char> & o) { return o; }

template<> class basic_istream<char, char_traits<char> > : virtual public basic_ios<char, char_traits<char> > {
public:
    virtual ~basic_istream() {}
};

template<> class basic_iostream<char, char_traits<char> > : public basic_istream<char>, public basic_ostream<char> {
};

#define QKV_SS(NAME, BASE) \
template<> class NAME<char, char_traits<char>, allocator<char> > : public BASE { \
public: \
    NAME() { this->_sb = &_b; } \
    explicit NAME(int) { this->_sb = &_b; } \
    explicit NAME(const std::string & s, int = 0) { this->_sb = &_b; _b.s = s; } \
    std::string str() const { return _b.s; } \
    void str(const std::string & s) { _b.s = s; } \
    stringbuf * rdbuf() const { return const_cast<stringbuf *>(&_b); } \
protected: \
    stringbuf _b; \
};
QKV_SS(basic_ostringstream, basic_ostream<char>)
QKV_SS(basic_stringstream, basic_iostream<char>)

template<> class basic_ofstream<char, char_traits<char> > : public basic_ostream<char> {
public:
    basic_ofstream() { this->_sb = &_b; }
    explicit basic_ofstream(const char * n, int = 16) { this->_sb = &_b; open(n); }
    explicit basic_ofstream(const std::string & n, int = 16) { this->_sb = &_b; open(n.c_str()); }
    void open(const char * n, int = 16) { if (_b.open(n, 16)) this->clear(); else this->setstate(ios_base::failbit); }
    void open(const std::string & n, int m = 16) { open(n.c_str(), m); }
    void close() { if (!_b.close()) this->setstate(ios_base::failbit); }
    bool is_open() const { return _b.is_open(); }
    filebuf * rdbuf() const { return const_cast<filebuf *>(&_b); }
private:
    basic_ofstream(const basic_ofstream &);
    filebuf _b;
};

class qkv_consolebuf : public streambuf {
public:
    int _put(const char * p, unsigned long n) { o(); return qkv_out_str(_h, p, n); }
    int _int(long v) { o(); return qkv_out_int(_h, v); }
    int _real(double v, int p) { o(); return qkv_out_real(_h, v, p); }
private:
    void o() { if (!_h) _h = qkv_out_open("<console>"); }
    int _h = 0;
};
class qkv_console : public basic_ostream<char> {
public:
    qkv_console() { this->_sb = &_b; }
private:
    qkv_consolebuf _b;
};
#ifdef QKV_RT
qkv_console qkv_cout_obj __attribute__((init_priority(101)));
ostream & cout = qkv_cout_obj;
ostream & cerr = qkv_cout_obj;
ostream & clog = qkv_cout_obj;
#else
extern qkv_console qkv_cout_obj;
extern ostream & cout;
extern ostream & cerr;
extern ostream & clog;
#endif
}
#endif
