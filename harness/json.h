// Minimal JSON reader / writer for the driver.  Strings are byte strings:
// every code point of the text is < 256 and stands for one byte.
#ifndef DRIVER_JSON_H_
#define DRIVER_JSON_H_

#include <cstdlib>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

struct JValue {
    enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
    bool b = false;
    long num = 0;
    std::string str;
    std::vector<JValue> arr;
    std::map<std::string, JValue> obj;
    std::string raw;

    bool has(const char* k) const { return obj.count(k) != 0; }
    const JValue& at(const char* k) const {
        std::map<std::string, JValue>::const_iterator it = obj.find(k);
        if (it == obj.end()) {
            throw std::runtime_error(std::string("missing field ") + k + " in " + raw);
        }
        return it->second;
    }
    const std::string& s(const char* k) const { return at(k).str; }
    long n(const char* k) const { return at(k).num; }
    bool flag(const char* k) const { return has(k) && at(k).b; }
    std::vector<std::string> strs(const char* k) const {
        std::vector<std::string> r;
        for (const JValue& v : at(k).arr) {
            r.push_back(v.str);
        }
        return r;
    }
};

class JParser {
  public:
    explicit JParser(const std::string& t) : t_(t), i_(0) {}
    JValue parse() {
        JValue v = value();
        ws();
        if (i_ != t_.size()) fail();
        return v;
    }

  private:
    [[noreturn]] void fail() { throw std::runtime_error("bad JSON at " + std::to_string(i_)); }
    void ws() {
        while (i_ < t_.size() && (t_[i_] == ' ' || t_[i_] == '\n' || t_[i_] == '\t' || t_[i_] == '\r')) ++i_;
    }
    char peek() {
        ws();
        if (i_ >= t_.size()) fail();
        return t_[i_];
    }
    void expect(char c) {
        if (peek() != c) fail();
        ++i_;
    }
    JValue value() {
        char c = peek();
        std::size_t from = i_;
        JValue v;
        if (c == '{') {
            v.kind = JValue::OBJ;
            ++i_;
            if (peek() == '}') {
                ++i_;
            }
            else {
                for (;;) {
                    ws();
                    std::string k = string();
                    expect(':');
                    v.obj[k] = value();
                    if (peek() == ',') { ++i_; continue; }
                    expect('}');
                    break;
                }
            }
        }
        else if (c == '[') {
            v.kind = JValue::ARR;
            ++i_;
            if (peek() == ']') {
                ++i_;
            }
            else {
                for (;;) {
                    v.arr.push_back(value());
                    if (peek() == ',') { ++i_; continue; }
                    expect(']');
                    break;
                }
            }
        }
        else if (c == '"') {
            v.kind = JValue::STR;
            v.str = string();
        }
        else if (c == 't' && t_.compare(i_, 4, "true") == 0) {
            v.kind = JValue::BOOL; v.b = true; i_ += 4;
        }
        else if (c == 'f' && t_.compare(i_, 5, "false") == 0) {
            v.kind = JValue::BOOL; v.b = false; i_ += 5;
        }
        else if (c == '-' || (c >= '0' && c <= '9')) {
            v.kind = JValue::NUM;
            const char* p = t_.c_str() + i_;
            char* e = NULL;
            v.num = ::strtol(p, &e, 10);
            if (e == p) fail();
            i_ += e - p;
        }
        else {
            fail();
        }
        v.raw = t_.substr(from, i_ - from);
        return v;
    }
    unsigned hex4() {
        if (i_ + 4 > t_.size()) fail();
        unsigned r = ::strtoul(t_.substr(i_, 4).c_str(), NULL, 16);
        i_ += 4;
        return r;
    }
    std::string string() {
        if (t_[i_] != '"') fail();
        ++i_;
        std::string r;
        while (i_ < t_.size() && t_[i_] != '"') {
            unsigned char c = t_[i_++];
            if (c == '\\') {
                char e = t_[i_++];
                switch (e) {
                    case 'n': r += '\n'; break;
                    case 't': r += '\t'; break;
                    case 'r': r += '\r'; break;
                    case 'b': r += '\b'; break;
                    case 'f': r += '\f'; break;
                    case 'u': r += static_cast<char>(hex4() & 0xff); break;
                    default: r += e; break;
                }
            }
            else if (c >= 0x80) { // UTF-8 encoded Latin-1
                unsigned char d = t_[i_++];
                r += static_cast<char>(((c & 0x1f) << 6) | (d & 0x3f));
            }
            else {
                r += static_cast<char>(c);
            }
        }
        if (i_ >= t_.size()) fail();
        ++i_;
        return r;
    }
    const std::string& t_;
    std::size_t i_;
};

inline std::string jstr(const std::string& s) {
    static const char* hex = "0123456789abcdef";
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) {
            r += "\\u00";
            r += hex[c >> 4];
            r += hex[c & 15];
        }
        else { r += static_cast<char>(c); }
    }
    return r + "\"";
}
inline std::string jbool(bool b) { return b ? "true" : "false"; }
inline std::string jint(long v) { return std::to_string(v); }

template<typename C, typename F>
std::string jlist(const C& c, F f) {
    std::string r = "[";
    bool first = true;
    for (const auto& x : c) {
        if (!first) r += ",";
        first = false;
        r += f(x);
    }
    return r + "]";
}
inline std::string jstrs(const std::vector<std::string>& v) { return jlist(v, jstr); }

#endif
