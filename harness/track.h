// What the driver shares between its files: the "inside the library" flag of
// the allocation tracker and the user variables handed to dest().
#ifndef DRIVER_TRACK_H_
#define DRIVER_TRACK_H_

#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

#include "blet/args.h"

#include "json.h"

// the variant of the driver that runs each object in a thread of its own has
// one set of these per thread (and no allocation tracker)
#ifdef DRIVER_THREADS
#define PER_THREAD thread_local
#else
#define PER_THREAD
#endif

extern PER_THREAD int g_inLib; // > 0 : allocations belong to the library

struct InLib {
    InLib() { ++g_inLib; }
    ~InLib() { --g_inLib; }
};
struct OutLib { // callback from the library into the driver
    int save;
    OutLib() : save(g_inLib) { g_inLib = 0; }
    ~OutLib() { g_inLib = save; }
};

// canonical text of a number: "-12e-1" is -1.2
inline std::string decimal(double v, int digits) {
    if (v != v) return "nan";
    if (v > 1.7976931348623157e308) return "inf";
    if (v < -1.7976931348623157e308) return "-inf";
    if (v == 0) return "0";
    char buf[64];
    ::snprintf(buf, sizeof(buf), "%.*e", digits - 1, v);
    std::string d;
    const char* p = buf;
    const bool neg = *p == '-';
    if (neg) ++p;
    for (; *p != 'e'; ++p) if (*p != '.') d += *p;
    long e = ::strtol(p + 1, NULL, 10) - static_cast<long>(d.size()) + 1;
    while (d[d.size() - 1] == '0') { d.resize(d.size() - 1); ++e; }
    return (neg ? "-" : "") + d + "e" + std::to_string(e);
}

struct Call { // one call of a custom destination function
    bool exists;
    std::vector<std::vector<std::string> > v;
};
extern PER_THREAD std::map<const void*, std::vector<Call> > g_calls;
void runHook(const void* key); // the calls a custom destination function makes
void boomCheck(const void* key, const std::vector<std::vector<std::string> >& v); // may throw

enum Color { RED = 1, GREEN };

class SlotBase {
  public:
    virtual ~SlotBase() {}
    virtual blet::args::Argument& bind(blet::args::Argument& a, bool custom) = 0;
    virtual void reset() = 0;
    virtual void beforeParse() {}
    virtual void afterParse() {}
    virtual const void* key() const = 0;
    virtual std::string value() = 0; // JSON rows
};

SlotBase* makeSlotText(const std::string& type, const std::string& shape);
SlotBase* makeSlotInt(const std::string& type, const std::string& shape);
SlotBase* makeSlotInt2(const std::string& type, const std::string& shape);
SlotBase* makeSlotFloat(const std::string& type, const std::string& shape);

#endif
