// User variables of every supported destination type and shape.
#ifndef DRIVER_SLOTS_H_
#define DRIVER_SLOTS_H_

#include <cmath>
#include <cstring>
#include <new>

#include "track.h"


// ---- printing of delivered values ------------------------------------------
inline std::string show(float v) { return jstr(decimal(static_cast<double>(v), 6)); }
inline std::string show(double v) { return jstr(decimal(v, 15)); }
inline std::string show(long double v) { return jstr(decimal(static_cast<double>(v), 15)); }
inline std::string show(const std::string& v) { return jstr(v); }
inline std::string show(const char* p) { return jstr(p); }
inline std::string show(bool v) { return jstr(v ? "1" : "0"); }
inline std::string showInt(long long v) { return jstr(std::to_string(v)); }
inline std::string showUInt(unsigned long long v) { return jstr(std::to_string(v)); }
inline std::string show(char v) { return showInt(v); }
inline std::string show(unsigned char v) { return showInt(v); }
inline std::string show(short v) { return showInt(v); }
inline std::string show(unsigned short v) { return showInt(v); }
inline std::string show(int v) { return showInt(v); }
inline std::string show(unsigned int v) { return showInt(v); }
inline std::string show(long v) { return showInt(v); }
inline std::string show(unsigned long v) { return showUInt(v); }
inline std::string show(long long v) { return showInt(v); }
inline std::string show(unsigned long long v) { return showUInt(v); }
inline std::string show(Color v) { return showInt(v); }
template<std::size_t N>
std::string show(const char (&v)[N]) {
    std::size_t n = 0;
    while (n < N && v[n] != '\0') ++n;
    return n == N ? jstr("<not terminated>") : jstr(std::string(v, n));
}

inline void record(const void* k, bool ex, const std::vector<std::vector<std::string> >& v) {
    OutLib o;
    Call c;
    c.exists = ex;
    c.v = v;
    g_calls[k].push_back(c);
    runHook(k);
    boomCheck(k, v);
}

// ---- scalars ----------------------------------------------------------------
template<typename T>
class OneSlot : public SlotBase {
  public:
    OneSlot() { ::memset(mem_, 0xA5, sizeof(mem_)); }
    blet::args::Argument& bind(blet::args::Argument& a, bool custom) {
        return custom ? a.dest(ref(), &OneSlot<T>::fn) : a.dest(ref());
    }
    void reset() { ::memset(mem_, 0xA5, sizeof(mem_)); g_calls[key()].clear(); }
    const void* key() const { return mem_; }
    std::string value() {
        for (std::size_t i = 0; i < sizeof(mem_); ++i) {
            if (static_cast<unsigned char>(mem_[i]) != 0xA5) return "[[" + show(ref()) + "]]";
        }
        return "[]";
    }

  private:
    T& ref() { return *reinterpret_cast<T*>(mem_); }
    static void fn(T& d, bool ex, const std::string& a) {
        record(&d, ex, std::vector<std::vector<std::string> >(1, std::vector<std::string>(1, a)));
    }
    alignas(T) char mem_[sizeof(T)];
};

template<>
class OneSlot<std::string> : public SlotBase {
  public:
    OneSlot() : v_("\001unset") {}
    blet::args::Argument& bind(blet::args::Argument& a, bool custom) {
        return custom ? a.dest(v_, &OneSlot<std::string>::fn) : a.dest(v_);
    }
    void reset() { v_ = "\001unset"; g_calls[key()].clear(); }
    const void* key() const { return &v_; }
    std::string value() { return v_ == "\001unset" ? "[]" : "[[" + jstr(v_) + "]]"; }

  private:
    static void fn(std::string& d, bool ex, const std::string& a) {
        record(&d, ex, std::vector<std::vector<std::string> >(1, std::vector<std::string>(1, a)));
    }
    std::string v_;
};

extern const char g_marker[];

template<>
class OneSlot<const char*> : public SlotBase {
  public:
    OneSlot() : p_(g_marker), set_(false) {}
    blet::args::Argument& bind(blet::args::Argument& a, bool custom) {
        return custom ? a.dest(p_, &OneSlot<const char*>::fn) : a.dest(p_);
    }
    void reset() { p_ = g_marker; set_ = false; g_calls[key()].clear(); }
    void beforeParse() { p_ = g_marker; }
    void afterParse() {
        if (p_ != g_marker) { set_ = true; snap_ = p_; }
    }
    const void* key() const { return &p_; }
    std::string value() { return set_ ? "[[" + jstr(snap_) + "]]" : "[]"; }

  private:
    static void fn(const char*& d, bool ex, const std::string& a) {
        record(&d, ex, std::vector<std::vector<std::string> >(1, std::vector<std::string>(1, a)));
    }
    const char* p_;
    bool set_;
    std::string snap_;
};

// ---- vectors ----------------------------------------------------------------
template<typename T>
class VecSlot : public SlotBase {
  public:
    blet::args::Argument& bind(blet::args::Argument& a, bool custom) {
        return custom ? a.dest(v_, &VecSlot<T>::fn) : a.dest(v_);
    }
    void reset() { v_.clear(); snap_.clear(); g_calls[key()].clear(); }
    // elements are read right after the parse that appended them
    void afterParse() {
        if (v_.size() < snap_.size()) { snap_.assign(1, "\"<elements lost>\""); return; }
        for (std::size_t i = snap_.size(); i < v_.size(); ++i) snap_.push_back(one(v_[i]));
    }
    const void* key() const { return &v_; }
    std::string value() { return "[" + jlist(snap_, [](const std::string& s) { return s; }) + "]"; }

  private:
    template<typename U> static std::string one(const U& u) { return show(static_cast<T>(u)); }
    static void fn(std::vector<T>& d, bool ex, const std::vector<std::string>& a) {
        record(&d, ex, std::vector<std::vector<std::string> >(1, a));
    }
    std::vector<T> v_;
    std::vector<std::string> snap_;
};
template<typename T>
class VVSlot : public SlotBase {
  public:
    blet::args::Argument& bind(blet::args::Argument& a, bool custom) {
        return custom ? a.dest(v_, &VVSlot<T>::fn) : a.dest(v_);
    }
    void reset() { v_.clear(); snap_.clear(); g_calls[key()].clear(); }
    void afterParse() {
        if (v_.size() < snap_.size()) { snap_.assign(1, "[\"<rows lost>\"]"); return; }
        for (std::size_t i = snap_.size(); i < v_.size(); ++i) {
            std::string r = "[";
            for (std::size_t j = 0; j < v_[i].size(); ++j) {
                if (j > 0) r += ",";
                T t = v_[i][j];
                r += show(t);
            }
            snap_.push_back(r + "]");
        }
    }
    const void* key() const { return &v_; }
    std::string value() { return jlist(snap_, [](const std::string& s) { return s; }); }

  private:
    static void fn(std::vector<std::vector<T> >& d, bool ex, const std::vector<std::vector<std::string> >& a) {
        record(&d, ex, a);
    }
    std::vector<std::vector<T> > v_;
    std::vector<std::string> snap_;
};

template<typename T>
SlotBase* makeSlot(const std::string& shape) {
    if (shape == "one") return new OneSlot<T>();
    if (shape == "vec") return new VecSlot<T>();
    return new VVSlot<T>();
}

#endif
