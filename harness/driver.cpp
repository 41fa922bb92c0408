// Executes scenarios (sequences of public calls) on the library and records
// what a user of the library can observe after each call.
//
//   driver SCENARIOS OUT FSDIR
//
// One scenario per input line, one trace per output line.  Every scenario
// runs in a child process, so a crash or an exit() ends only that scenario.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <exception>
#include <memory>
#include <new>
#include <set>
#include <thread>
#include <sstream>
#include <typeinfo>

#include "track.h"

using blet::Args;
typedef blet::args::Argument Argument;
typedef blet::args::ArgumentElement Element;
typedef blet::args::Vector Vector;
typedef blet::args::Action Action;

const long BAD = 2000000001L;

// Counts beyond the integers of the specification: v = 2147483640 + k stands
// for HUGE_COUNT[k].  All it relies on is that they exceed every command line.
const long HUGE_BASE = 2147483640L;
const std::size_t HUGE_COUNT[] = {static_cast<std::size_t>(1) << 31,       (static_cast<std::size_t>(1) << 32) - 1,
                                  static_cast<std::size_t>(1) << 32,       (static_cast<std::size_t>(1) << 32) + 1,
                                  (static_cast<std::size_t>(1) << 32) + 2, static_cast<std::size_t>(-3),
                                  static_cast<std::size_t>(-2),            static_cast<std::size_t>(-1)};

std::size_t countOf(long v) {
    return v >= HUGE_BASE ? HUGE_COUNT[v - HUGE_BASE] : static_cast<std::size_t>(v);
}

long countText(std::size_t n) {
    for (int k = 0; k < 8; ++k)
        if (n == HUGE_COUNT[k]) return HUGE_BASE + k;
    return n > 1000000 ? BAD : static_cast<long>(n);
}

// ---------------------------------------------------------------------------
// Allocation tracker: every block allocated while inside the library
// ---------------------------------------------------------------------------
PER_THREAD int g_inLib = 0;
PER_THREAD std::map<const void*, std::vector<Call> > g_calls;

namespace {
struct Node { void* p; std::size_t n; };
const std::size_t TABLE = 1u << 20;
Node* g_table = NULL; // open addressing
std::size_t g_live = 0;
std::size_t g_bytes = 0;

std::size_t slotOf(void* p) { return (reinterpret_cast<std::size_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
void* const TOMB = reinterpret_cast<void*>(1);

void note(void* p, std::size_t n) {
    if (g_table == NULL) {
        g_table = static_cast<Node*>(::calloc(TABLE, sizeof(Node)));
    }
    g_bytes += n;
    if (g_bytes > (600u << 20) || g_live > TABLE / 2) {
        static const char m[] = "driver: the library allocates without bound\n";
        ssize_t r = ::write(2, m, sizeof(m) - 1);
        (void)r;
        ::abort();
    }
    std::size_t i = slotOf(p) & (TABLE - 1);
    while (g_table[i].p != NULL && g_table[i].p != TOMB) i = (i + 1) & (TABLE - 1);
    g_table[i].p = p;
    g_table[i].n = n;
    ++g_live;
}
void forget(void* p) {
    if (g_table == NULL) return;
    std::size_t i = slotOf(p) & (TABLE - 1);
    std::size_t steps = 0;
    while (g_table[i].p != NULL && steps++ < TABLE) {
        if (g_table[i].p == p) {
            g_table[i].p = TOMB;
            g_bytes -= g_table[i].n;
            --g_live;
            return;
        }
        i = (i + 1) & (TABLE - 1);
    }
}
} // namespace

#ifndef DRIVER_THREADS
static void* allocate(std::size_t n) {
    void* p = ::malloc(n == 0 ? 1 : n);
    if (p == NULL) throw std::bad_alloc();
    if (g_inLib > 0) note(p, n);
    return p;
}
static void release(void* p) {
    if (p == NULL) return;
    if (g_live > 0) forget(p);
    ::free(p);
}
void* operator new(std::size_t n) { return allocate(n); }
void* operator new[](std::size_t n) { return allocate(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
#endif

// ---------------------------------------------------------------------------
// Validators
// ---------------------------------------------------------------------------
// calls made from inside a validator or a custom destination function
void runNested(const JValue& ops);
PER_THREAD std::map<const void*, const JValue*> g_hooks;
void runHook(const void* key) {
    std::map<const void*, const JValue*>::iterator it = g_hooks.find(key);
    if (it != g_hooks.end()) runNested(*it->second);
}
PER_THREAD std::set<const void*> g_boom; // custom destinations that throw when given "boom"
void boomCheck(const void* key, const std::vector<std::vector<std::string> >& v) {
    if (g_boom.count(key) == 0) return;
    for (const std::vector<std::string>& r : v)
        for (const std::string& s : r) if (s == "boom") throw std::runtime_error("raised");
}

namespace {

PER_THREAD std::map<int, blet::args::IValid*> g_valids; // alive
struct VCall { int vid; std::vector<std::string> vs; };
PER_THREAD std::vector<VCall> g_vlog;

void logCall(int vid, const std::vector<std::string>& vs) {
    OutLib o;
    VCall c;
    c.vid = vid;
    c.vs = vs;
    g_vlog.push_back(c);
}

template<typename Base>
class Tracked : public Base {
  public:
    template<typename... A>
    explicit Tracked(int vid, const A&... a) : Base(a...), vid_(vid) { g_valids[vid] = this; }
    ~Tracked() { OutLib o; g_valids.erase(vid_); }
    bool isValid(std::vector<std::string>& args) {
        logCall(vid_, args);
        return Base::isValid(args);
    }

  private:
    int vid_;
};

class Custom : public blet::args::IValid {
  public:
    explicit Custom(const std::string& kind, const JValue* nest) : kind_(kind), nest_(nest) {}
    bool isValid(std::vector<std::string>& a) {
        if (nest_ != NULL) {
            OutLib o;
            runNested(*nest_);
        }
        if (kind_ == "accept") return true;
        if (kind_ == "reject") return false;
        if (kind_ == "raise") {
            for (const std::string& s : a) if (s == "boom") { OutLib o; throw std::runtime_error("raised"); }
            return true;
        }
        if (kind_ == "throw") throw Args::ParseArgumentValidException("custom message");
        if (kind_ == "notbad") {
            for (const std::string& s : a) if (s == "bad") return false;
            return true;
        }
        if (kind_ == "upper") {
            for (std::string& s : a) for (char& c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
            return true;
        }
        if (kind_ == "prefix") { for (std::string& s : a) s = "p" + s; return true; }
        if (kind_ == "shrink") { if (!a.empty()) { a.resize(1); a[0] = "s" + a[0]; } return true; }
        if (kind_ == "grow") { for (std::string& s : a) s = "g" + s; a.push_back("extra"); return true; }
        if (kind_ == "erase") { a.clear(); return true; }
        if (kind_ == "reverse") { std::vector<std::string> b(a.rbegin(), a.rend()); a = b; return true; }
        return true;
    }

  private:
    std::string kind_;
    const JValue* nest_;
};

// ---------------------------------------------------------------------------
// Lists of strings in all the forms the interface accepts
// ---------------------------------------------------------------------------
typedef const std::vector<std::string>& Strs;

template<std::size_t N>
Vector arrayForm(Strs s, const std::string& form) {
    if (form == "sarr") {
        std::string a[N];
        for (std::size_t i = 0; i < N; ++i) a[i] = s[i];
        const std::string (&r)[N] = a;
        return Vector(r);
    }
    const char* a[N];
    for (std::size_t i = 0; i < N; ++i) a[i] = s[i].c_str();
    if (form == "carr") {
        const char* const (&r)[N] = a;
        return Vector(r);
    }
    return Vector(a);
}
Vector initForm(Strs s) {
    switch (s.size()) {
        case 0: return Vector(std::initializer_list<std::string>{});
        case 1: return Vector(std::initializer_list<std::string>{s[0]});
        case 2: return {s[0], s[1]};
        case 3: return {s[0], s[1], s[2]};
        case 4: return {s[0], s[1], s[2], s[3]};
        default: {
            Vector v{s[0], s[1], s[2], s[3], s[4]};
            for (std::size_t i = 5; i < s.size(); ++i) v.push_back(s[i]);
            return v;
        }
    }
}
Vector vectorForm(Strs v) {
#define C(i) v[i].c_str()
#define C5(i) C(i), C(i + 1), C(i + 2), C(i + 3), C(i + 4)
    switch (v.size()) {
        case 0: return Args::vector();
        case 1: return Args::vector(C(0));
        case 2: return Args::vector(C(0), C(1));
        case 3: return Args::vector(C(0), C(1), C(2));
        case 4: return Args::vector(C(0), C(1), C(2), C(3));
        case 5: return Args::vector(C5(0));
        case 6: return Args::vector(C5(0), C(5));
        case 7: return Args::vector(C5(0), C(5), C(6));
        case 8: return Args::vector(C5(0), C(5), C(6), C(7));
        case 9: return Args::vector(C5(0), C(5), C(6), C(7), C(8));
        case 10: return Args::vector(C5(0), C5(5));
        case 11: return Args::vector(C5(0), C5(5), C(10));
        case 12: return Args::vector(C5(0), C5(5), C(10), C(11));
        case 13: return Args::vector(C5(0), C5(5), C(10), C(11), C(12));
        case 14: return Args::vector(C5(0), C5(5), C(10), C(11), C(12), C(13));
        case 15: return Args::vector(C5(0), C5(5), C5(10));
        case 16: return Args::vector(C5(0), C5(5), C5(10), C(15));
        case 17: return Args::vector(C5(0), C5(5), C5(10), C(15), C(16));
        case 18: return Args::vector(C5(0), C5(5), C5(10), C(15), C(16), C(17));
        case 19: return Args::vector(C5(0), C5(5), C5(10), C(15), C(16), C(17), C(18));
        case 20: return Args::vector(C5(0), C5(5), C5(10), C5(15));
        default: break;
    }
    Vector r = Args::vector();
    for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v[i]);
    return r;
#undef C
#undef C5
}
Vector makeVector(Strs s, const std::string& form) {
    const std::size_t n = s.size();
    if (form == "vector") return vectorForm(s);
    if (form == "init") return initForm(s);
    if (form == "sized") {
        Vector v(static_cast<int>(n));
        for (std::size_t i = 0; i < n; ++i) v[i] = s[i];
        return v;
    }
    if (form == "plus") {
        Vector v;
        for (std::size_t i = 0; i < n; ++i) v + s[i];
        return v;
    }
    if (form == "plusc") {
        Vector v;
        for (std::size_t i = 0; i < n; ++i) {
            const char* p = s[i].c_str();
            if (i % 2 == 0 || s[i].size() > 60) {
                v + p;
            }
            else {
                char buf[64] = {0};
                ::strncpy(buf, p, sizeof(buf) - 1);
                const char (&r)[64] = buf;
                v + r;
            }
        }
        return v;
    }
    if (form == "str" && n == 1 && s[0].size() < 64) {
        char buf[64] = {0};
        ::memcpy(buf, s[0].c_str(), s[0].size());
        const char (&r)[64] = buf;
        return Vector(r);
    }
    if (form == "cstr" && n == 1) {
        const char* p = s[0].c_str();
        return Vector(p);
    }
    if (form == "string" && n == 1) return Vector(s[0]);
    if (form == "arr" || form == "sarr" || form == "carr") {
        switch (n) {
            case 1: return arrayForm<1>(s, form);
            case 2: return arrayForm<2>(s, form);
            case 3: return arrayForm<3>(s, form);
            case 4: return arrayForm<4>(s, form);
            case 5: return arrayForm<5>(s, form);
            case 7: return arrayForm<7>(s, form);
            case 21: return arrayForm<21>(s, form);
            default: break;
        }
    }
    Vector v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(s[i]);
    return v;
}

// a list built step by step
Vector buildSteps(const JValue& steps) {
    Vector v;
    for (const JValue& st : steps.arr) {
        const std::string& k = st.s("s");
        if (k == "empty") v = Vector();
        else if (k == "sized") v = Vector(static_cast<int>(st.n("n")));
        else if (k == "set") v[static_cast<std::size_t>(st.n("i"))] = st.s("x");
        else if (k == "push") v.push_back(st.s("x"));
        else if (k == "plus") v + st.s("x");
        else if (k == "plusc") { const char* q = st.s("x").c_str(); v + q; }
        else if (k == "plusa") {
            char buf[64] = {0};
            ::strncpy(buf, st.s("x").c_str(), sizeof(buf) - 1);
            const char (&r)[64] = buf;
            v + r;
        }
        else if (k == "plus2") v + st.s("x") + st.s("y");
        else if (k == "copy") { Vector c(v); Vector d; d = c; v.clear(); v.push_back("old"); v = d; }
        else if (k == "ret") v = Vector(v + st.s("x"));
        else v = makeVector(st.strs("l"), k);
    }
    return v;
}
Vector listOf(const JValue& op, const char* field) {
    if (op.has("steps")) return buildSteps(op.at("steps"));
    return makeVector(op.strs(field), op.has("form") ? op.s("form") : "");
}

// ---------------------------------------------------------------------------
// The world
// ---------------------------------------------------------------------------
struct SlotEntry {
    std::string shape;
    SlotBase* impl;
};
PER_THREAD Args* g_obj[4];
PER_THREAD std::map<int, SlotEntry> g_slots;
PER_THREAD std::map<int, blet::args::IValid*> g_shared; // validators the driver owns
PER_THREAD std::set<int> g_mine;   // validators that are not given away

PER_THREAD int g_out = -1;
int g_stdout = -1; // file behind descriptor 1
PER_THREAD bool g_first = true;
PER_THREAD std::string g_parseRaw; // the parse under way (for exit())
pid_t g_child = 0;
PER_THREAD bool g_inParse = false;

PER_THREAD int g_quiet = 0; // inside runNested()

void emit(const std::string& text) {
    if (g_quiet > 0) return;
    std::string t = (g_first ? "" : ",") + text;
    g_first = false;
    std::size_t done = 0;
    while (done < t.size()) {
        ssize_t r = ::write(g_out, t.data() + done, t.size() - done);
        if (r <= 0) ::_exit(97);
        done += static_cast<std::size_t>(r);
    }
}
void emitOp(const JValue& op, const std::string& out) {
    emit(op.raw.substr(0, op.raw.size() - 1) + ",\"out\":" + out + "}");
}

std::string okOut() { return "{\"k\":\"ok\"}"; }
std::string kindOut(const std::string& k, const std::string& w) { return "{\"k\":" + jstr(k) + ",\"w\":" + jstr(w) + "}"; }
std::string excOut(const char* t, const std::string& w, const std::string& a) {
    return "{\"k\":\"exc\",\"t\":\"" + std::string(t) + "\",\"w\":" + jstr(w) + ",\"a\":" + jstr(a) + "}";
}
std::string cs(const char* p) { return p == NULL ? std::string("<null>") : std::string(p); }

// is: the classes of the documented hierarchy the exception can be caught as
template<typename E>
void derives(const std::exception& e, const char* name, std::vector<std::string>& is) {
    if (dynamic_cast<const E*>(&e) != NULL) is.push_back(name);
}
std::string describe(const std::exception& e) {
    const std::type_info& t = typeid(e);
    const char* name = t == typeid(Args::ParseArgumentRequiredException) ? "Required"
                     : t == typeid(Args::ParseArgumentValidException)    ? "Valid"
                     : t == typeid(Args::ParseArgumentException)         ? "Parse"
                     : t == typeid(Args::AccessDeniedException)          ? "AccessDenied"
                     : t == typeid(Args::ArgumentException)              ? "Argument"
                     : t == typeid(Args::HelpException)                  ? "Help"
                     : t == typeid(Args::VersionException)               ? "Version"
                     : t == typeid(Args::Exception)                      ? "Exception"
                                                                         : "std";
    const Args::ArgumentException* a = dynamic_cast<const Args::ArgumentException*>(&e);
    std::vector<std::string> is;
    derives<Args::Exception>(e, "Exception", is);
    derives<Args::ArgumentException>(e, "Argument", is);
    derives<Args::ParseArgumentException>(e, "Parse", is);
    derives<Args::ParseArgumentRequiredException>(e, "Required", is);
    derives<Args::ParseArgumentValidException>(e, "Valid", is);
    derives<Args::AccessDeniedException>(e, "AccessDenied", is);
    derives<Args::HelpException>(e, "Help", is);
    derives<Args::VersionException>(e, "Version", is);
    std::string r = excOut(name, cs(e.what()), a != NULL ? cs(a->argument()) : "");
    return r.substr(0, r.size() - 1) + ",\"is\":" + jstrs(is) + "}";
}

template<typename F>
std::string guarded(F f) {
    std::exception_ptr kept;
    try {
        try {
            InLib in;
            return f();
        }
        catch (const std::exception&) {
            kept = std::current_exception(); // looked at when the frames it left are gone
        }
        std::rethrow_exception(kept);
    }
    catch (const std::exception& e) { return describe(e); }
    catch (...) { return excOut("unknown", "", ""); }
}
// guarded() may leave g_inLib raised only through exit(); InLib is unwound

Action::eAction actionOf(const std::string& s) {
    if (s == "HELP") return Action::HELP;
    if (s == "VERSION") return Action::VERSION;
    if (s == "STORE_TRUE") return Action::STORE_TRUE;
    if (s == "STORE_FALSE") return Action::STORE_FALSE;
    if (s == "APPEND") return Action::APPEND;
    if (s == "EXTEND") return Action::EXTEND;
    if (s == "INFINITE") return Action::INFINITE;
    return Action::NONE;
}
const char* actionName(Action::eAction a) {
    switch (a) {
        case Action::NONE: return "NONE";
        case Action::HELP: return "HELP";
        case Action::VERSION: return "VERSION";
        case Action::STORE_TRUE: return "STORE_TRUE";
        case Action::STORE_FALSE: return "STORE_FALSE";
        case Action::APPEND: return "APPEND";
        case Action::EXTEND: return "EXTEND";
        case Action::INFINITE: return "INFINITE";
    }
    return "?";
}

blet::args::IValid* makeValid(const JValue& v) {
    OutLib o;
    const int vid = static_cast<int>(v.n("vid"));
    if (vid == 0) return NULL;
    if (v.flag("del")) g_mine.erase(vid);
    else g_mine.insert(vid);
    // the same object once more: shared, or handed over again
    if (g_valids.count(vid)) return g_valids[vid];
    const std::string& k = v.s("k");
    blet::args::IValid* r = NULL;
    if (k == "number") {
        r = new Tracked<blet::args::ValidNumber>(vid);
    }
    else if (k == "minmax") {
        r = new Tracked<blet::args::ValidMinMax>(vid, ::strtod(v.s("min").c_str(), NULL),
                                                 ::strtod(v.s("max").c_str(), NULL));
    }
    else if (k == "choice") {
        r = new Tracked<blet::args::ValidChoise>(vid, listOf(v, "choices"));
    }
    else if (k == "path") {
        const std::string& m = v.s("mode");
        r = new Tracked<blet::args::ValidPath>(vid, m == "DIR" ? blet::args::ValidPath::IS_DIR
                                                    : m == "FILE" ? blet::args::ValidPath::IS_FILE
                                                                  : blet::args::ValidPath::ALL);
    }
    else {
        const JValue* nest = v.has("nest") ? &v.at("nest") : NULL;
        r = new Tracked<Custom>(vid, k, nest);
    }
    return r;
}

SlotBase* slotOf(const JValue& op) {
    OutLib o;
    const int id = static_cast<int>(op.n("slot"));
    std::map<int, SlotEntry>::iterator it = g_slots.find(id);
    if (it != g_slots.end()) return it->second.impl;
    SlotEntry e;
    e.shape = op.s("shape");
    e.impl = makeSlotText(op.s("type"), e.shape);
    if (e.impl == NULL) e.impl = makeSlotInt(op.s("type"), e.shape);
    if (e.impl == NULL) e.impl = makeSlotInt2(op.s("type"), e.shape);
    if (e.impl == NULL) e.impl = makeSlotFloat(op.s("type"), e.shape);
    if (e.impl == NULL) throw std::runtime_error("bad destination type");
    g_slots[id] = e;
    return e.impl;
}

// --- observations ------------------------------------------------------------
template<typename E>
std::string numOf(const E& e) {
    const bool is = e.isNumber();
    double v = 0;
    bool threw = false;
    try {
        v = e.getNumber();
    }
    catch (const Args::Exception&) {
        threw = true;
    }
    if (threw == is) return "[\"2\",\"\"]"; // isNumber and getNumber disagree
    return is ? "[\"1\"," + jstr(decimal(v, 15)) + "]" : "[\"0\",\"\"]";
}
template<typename T>
bool convAgrees(const Argument& a) {
    bool threw = false;
    T t = T();
    try {
        T u = a;
        t = u;
    }
    catch (const Args::Exception&) {
        threw = true;
    }
    if (threw == a.isNumber()) return false;
    if (threw) return true;
    const double d = a.getNumber();
    if (!(d == d) || std::fabs(d) > static_cast<double>(std::numeric_limits<T>::max()) * 0.999999 ||
        (d < 0 && !std::numeric_limits<T>::is_signed)) return true;
    return t == static_cast<T>(d);
}
std::string rowsJson(const std::vector<std::vector<std::string> >& v) { return jlist(v, jstrs); }

std::string elementJson(const Element& e, bool top) {
    std::ostringstream oss;
    oss << e;
    std::string r = "{\"s\":" + jstr(e.getString()) + ",\"o\":" + jbool(oss.str() == e.getString()) + ",\"d\":" + jstr(e.getDefault()) + ",\"n\":" + numOf(e);
    if (top) {
        std::string sub = "[";
        for (std::size_t i = 0; i < e.size(); ++i) sub += (i ? "," : "") + elementJson(e[i], false);
        r += ",\"sub\":" + sub + "]";
        std::string ev;
        try {
            std::vector<std::string> v = e;
            ev = "{\"k\":\"ok\",\"v\":" + jstrs(v) + "}";
        }
        catch (const Args::Exception&) {
            ev = "{\"k\":\"exc\",\"v\":[]}";
        }
        r += ",\"ev\":" + ev;
    }
    else {
        r += ",\"deep\":" + jint(static_cast<long>(e.size()));
    }
    return r + "}";
}

std::string argJson(const Argument& a) {
    std::ostringstream oss;
    oss << a;
    std::string s = a;
    std::string r = "{";
    r += "\"names\":" + jstrs(a.getNameOrFlags());
    r += ",\"action\":\"" + std::string(actionName(a.getAction())) + "\"";
    r += ",\"nargs\":" + jint(countText(a.getNargs()));
    r += ",\"req\":" + jbool(a.isRequired());
    r += ",\"help\":" + jstr(a.getHelp());
    r += ",\"metavar\":" + jstr(a.getMetavar());
    r += ",\"defaults\":" + jstrs(a.getDefaults());
    r += ",\"def\":" + jstr(a.getDefault());
    r += ",\"ex\":" + jbool(a.isExists());
    r += ",\"cnt\":" + jint(static_cast<long>(a.count() > 1000000 ? BAD : a.count()));
    r += ",\"b\":" + jbool(a.operator bool());
    r += ",\"s\":" + jstr(a.getString());
    r += ",\"os\":" + jstr(oss.str());
    r += ",\"str\":" + jstr(s);
    r += ",\"num\":" + numOf(a);
    r += ",\"nc\":" + jbool(convAgrees<double>(a) && convAgrees<float>(a) && convAgrees<int>(a) && convAgrees<long>(a) &&
                            convAgrees<unsigned int>(a) && convAgrees<short>(a) && convAgrees<unsigned long>(a) &&
                            convAgrees<long double>(a) && convAgrees<unsigned char>(a));
    r += ",\"el\":[";
    for (std::size_t i = 0; i < a.size(); ++i) r += (i ? "," : "") + elementJson(a[i], true);
    r += "]";
    std::string v;
    try {
        std::vector<std::string> x = a;
        v = "{\"k\":\"ok\",\"v\":" + jstrs(x) + "}";
    }
    catch (const Args::Exception&) {
        v = "{\"k\":\"exc\",\"v\":[]}";
    }
    r += ",\"vec\":" + v;
    try {
        std::vector<std::vector<std::string> > x = a;
        v = "{\"k\":\"ok\",\"v\":" + rowsJson(x) + "}";
    }
    catch (const Args::Exception&) {
        v = "{\"k\":\"exc\",\"v\":[]}";
    }
    r += ",\"vv\":" + v;
    return r + "}";
}

std::string liveJson() { return jlist(g_valids, [](const std::pair<const int, blet::args::IValid*>& v) { return jint(v.first); }); }

std::string obsJson(Args& args, const std::vector<std::string>& probe) {
    std::vector<const Argument*> found;
    std::string ex = "[", idx = "[";
    for (std::size_t i = 0; i < probe.size(); ++i) {
        const bool e = args.argumentExists(probe[i]);
        std::size_t k = 0;
        const Argument* p = NULL;
        try {
            p = &args.getArgument(probe[i]);
            if (p != &args[probe[i]] || p != &args.updateArgument(probe[i])) k = 99;
        }
        catch (const Args::AccessDeniedException&) {
            p = NULL;
        }
        if (p != NULL && k == 0) {
            while (k < found.size() && found[k] != p) ++k;
            if (k == found.size()) found.push_back(p);
            ++k;
        }
        ex += (i ? "," : "") + jbool(e);
        idx += (i ? "," : "") + jint(static_cast<long>(k));
    }
    std::string r = "{\"ex\":" + ex + "],\"idx\":" + idx + "]";
    r += ",\"args\":" + jlist(found, [](const Argument* a) { return argJson(*a); });
    r += ",\"addl\":" + jstrs(args.getAdditionalArguments());
    r += ",\"alt\":" + jbool(args.isAlternative()) + ",\"strict\":" + jbool(args.isStrict());
    r += ",\"hex\":" + jbool(args.isHelpException()) + ",\"vex\":" + jbool(args.isVersionException());
    r += ",\"version\":" + jstr(args.getVersion()) + ",\"binary\":" + jstr(args.getBinaryName());
    r += ",\"desc\":" + jstr(args.getDescription()) + ",\"epilog\":" + jstr(args.getEpilog());
    r += ",\"slots\":[";
    bool first = true;
    for (std::map<int, SlotEntry>::iterator it = g_slots.begin(); it != g_slots.end(); ++it) {
        r += first ? "" : ",";
        first = false;
        r += "{\"slot\":" + jint(it->first) + ",\"v\":" + it->second.impl->value();
        r += ",\"calls\":" + jlist(g_calls[it->second.impl->key()], [](const Call& c) {
            return "{\"ex\":" + jbool(c.exists) + ",\"v\":" + rowsJson(c.v) + "}";
        }) + "}";
    }
    r += "],\"live\":" + liveJson();
    r += ",\"vlog\":" + jlist(g_vlog, [](const VCall& c) { return "{\"vid\":" + jint(c.vid) + ",\"vs\":" + jstrs(c.vs) + "}"; });
    return r + "}";
}

// --- calls -------------------------------------------------------------------
std::string same(Args& args, const Argument& ret, const std::string& name) {
    return args.argumentExists(name) && &ret == &args.getArgument(name) ? okOut() : kindOut("badref", name);
}

std::string runParse(Args& args, const std::vector<std::string>& toks) {
    const std::size_t n = toks.size();
    // the same array every time: its contents are all that may matter
    static PER_THREAD char* fixed[128];
    char** argv = n < 126 && !g_inParse ? fixed : static_cast<char**>(::malloc((n + 2) * sizeof(char*)));
    std::vector<char*> keep;
    for (std::size_t i = 0; i < n; ++i) {
        argv[i] = static_cast<char*>(::malloc(toks[i].size() + 1));
        ::memcpy(argv[i], toks[i].c_str(), toks[i].size() + 1);
        keep.push_back(argv[i]);
    }
    // argc says where the line ends, not what follows
    static char decoy[] = "--";
    argv[n] = n % 2 == 1 ? decoy : NULL;
    argv[n + 1] = NULL;
    for (std::map<int, SlotEntry>::iterator it = g_slots.begin(); it != g_slots.end(); ++it) it->second.impl->beforeParse();
    const bool outer = g_inParse;
    if (!outer) g_vlog.clear();
    g_inParse = true;
    std::string out = guarded([&]() {
        args.parseArguments(static_cast<int>(n), argv);
        return okOut();
    });
    g_inParse = outer;
    bool touched = argv[n] != (n % 2 == 1 ? decoy : NULL) || argv[n + 1] != NULL;
    for (std::size_t i = 0; i < n; ++i) touched = touched || argv[i] != keep[i] || toks[i] != keep[i];
    for (std::size_t i = 0; i < n; ++i) {
        ::free(keep[i]);
        argv[i] = NULL;
    }
    if (argv != fixed) ::free(argv);
    if (!outer) {
        for (std::map<int, SlotEntry>::iterator it = g_slots.begin(); it != g_slots.end(); ++it) it->second.impl->afterParse();
    }
    if (touched) return kindOut("argv", "command line modified");
    return out;
}

void runOp(const JValue& op) {
    const std::string& k = op.s("op");
    const int oi = op.has("o") ? static_cast<int>(op.n("o")) : 0;
    Args* const po = g_obj[oi];
    if (k == "reslot") {
        std::map<int, SlotEntry>::iterator it = g_slots.find(static_cast<int>(op.n("slot")));
        if (it != g_slots.end()) it->second.impl->reset();
        emitOp(op, okOut());
        return;
    }
    if (k == "new" || k == "destroy") {
        InLib in;
        delete po;
        g_obj[oi] = NULL;
        if (k == "new") g_obj[oi] = new Args();
        g_inLib = 0;
        emitOp(op, okOut());
        g_inLib = 1;
        return;
    }
    if (po == NULL) throw std::runtime_error("call on a destroyed object");
    Args& args = *po;
    if (k == "obs") {
        std::string o = guarded([&]() { OutLib ol; return obsJson(args, op.strs("probe")); });
        emit(op.raw.substr(0, op.raw.size() - 1) + ",\"out\":{\"k\":\"ok\"},\"ob\":" + o + "}");
        return;
    }
    if (k == "usage") {
        std::string u;
        std::string o = guarded([&]() {
            std::string a = args.getUsage();
            std::string b = args.getUsage();
            { OutLib ol; u = a; }
            return a == b ? okOut() : kindOut("unstable", "usage");
        });
        emit(op.raw.substr(0, op.raw.size() - 1) + ",\"out\":" + o + ",\"u\":" + jstr(u) + "}");
        return;
    }
    if (k == "parse") {
        std::vector<std::string> toks = op.strs("argv");
        g_parseRaw = op.raw;
        std::string o = runParse(args, toks);
        emitOp(op, o);
        return;
    }
    std::string n = op.has("n") ? op.s("n") : std::string();
    std::string out;
    if (k == "add") {
        Vector v = listOf(op, "names");
        std::vector<std::string> names = v;
        out = guarded([&]() {
            Argument& a = args.addArgument(v);
            return same(args, a, names.empty() ? "" : names[0]);
        });
    }
    else if (k == "remove") {
        Vector v = listOf(op, "names");
        out = guarded([&]() { args.removeArguments(v); return okOut(); });
    }
    else if (k == "flag") {
        std::string f = op.s("v");
        out = guarded([&]() { return same(args, args.updateArgument(n).flag(f.c_str()), n); });
    }
    else if (k == "action") {
        out = guarded([&]() { return same(args, args.updateArgument(n).action(actionOf(op.s("v"))), n); });
    }
    else if (k == "nargs") {
        out = guarded([&]() { return same(args, args.updateArgument(n).nargs(countOf(op.n("v"))), n); });
    }
    else if (k == "defaults") {
        Vector v = listOf(op, "v");
        out = guarded([&]() { return same(args, args.updateArgument(n).defaults(v), n); });
    }
    else if (k == "help") {
        std::string h = op.s("v");
        out = guarded([&]() { return same(args, args.updateArgument(n).help(h.c_str()), n); });
    }
    else if (k == "metavar") {
        std::string h = op.s("v");
        out = guarded([&]() { return same(args, args.updateArgument(n).metavar(h.c_str()), n); });
    }
    else if (k == "required") {
        out = guarded([&]() {
            return same(args, op.at("v").b ? args.updateArgument(n).required() : args.updateArgument(n).required(false), n);
        });
    }
    else if (k == "valid") {
        out = guarded([&]() {
            Argument& a = args.updateArgument(n); // may throw before the validator exists
            blet::args::IValid* p = makeValid(op.at("v"));
            return same(args, op.at("v").flag("del") ? a.valid(p) : a.valid(p, false), n);
        });
    }
    else if (k == "dest") {
        out = guarded([&]() {
            Argument& a = args.updateArgument(n);
            SlotBase* s = slotOf(op);
            {
                OutLib ol;
                if (op.has("boom")) g_boom.insert(s->key());
                else g_boom.erase(s->key());
                if (op.has("nest")) g_hooks[s->key()] = &op.at("nest");
                else g_hooks.erase(s->key());
            }
            return same(args, s->bind(a, op.flag("custom")), n);
        });
    }
    else if (k == "copy") {
        out = guarded([&]() {
            const Argument& a = args.getArgument(n);
            Argument c(a);
            const Element e(a);
            bool eq = c.getString() == a.getString() && e.size() == a.size() && c.count() == a.count() &&
                      c.getNameOrFlags() == a.getNameOrFlags();
            return eq ? okOut() : kindOut("badcopy", n);
        });
    }
    else if (k == "get") {
        std::string a = guarded([&]() { args.getArgument(n); return okOut(); });
        std::string b = guarded([&]() { args[n]; return okOut(); });
        out = guarded([&]() { args.updateArgument(n); return okOut(); });
        if (a != out || b != out || args.argumentExists(n) != (out == okOut())) out = kindOut("mixed", n);
    }
    else if (k == "mode") {
        const std::string& m = op.s("k");
        const bool v = op.at("v").b;
        out = guarded([&]() {
            bool chained = true;
            if (m == "alt") chained = &(v ? args.setAlternative() : args.setAlternative(false)) == &args;
            else if (m == "strict") chained = &(v ? args.setStrict() : args.setStrict(false)) == &args;
            else if (m == "hex") chained = &(v ? args.setHelpException() : args.setHelpException(false)) == &args;
            else chained = &(v ? args.setVersionException() : args.setVersionException(false)) == &args;
            return chained ? okOut() : kindOut("badref", m);
        });
    }
    else if (k == "text") {
        const std::string& m = op.s("k");
        std::string v = op.s("v");
        out = guarded([&]() {
            if (m == "version") args.setVersion(v);
            else if (m == "binary") args.setBinaryName(v.c_str());
            else if (m == "desc") args.setDescription(v.c_str());
            else if (m == "epilog") args.setEpilog(v.c_str());
            else args.setUsage(v.c_str());
            return okOut();
        });
    }
    else if (k == "width") {
        const std::vector<JValue>& w = op.at("v").arr;
        out = guarded([&]() { args.setUsageWidth(w[0].num, w[1].num, w[2].num, w[3].num); return okOut(); });
    }
    else if (k == "clear") {
        out = guarded([&]() { args.clear(); return okOut(); });
    }
    else {
        throw std::runtime_error("unknown op " + k);
    }
    emitOp(op, out);
}

} // namespace

void runNested(const JValue& ops) {
    const std::string raw = g_parseRaw;
    ++g_quiet;
    for (const JValue& op : ops.arr) {
        runOp(op);
        g_inLib = 0;
    }
    --g_quiet;
    g_parseRaw = raw;
}

namespace {

// bytes written to standard output and error (a sanitizer's warnings aside)
long said(bool out) {
    std::cout.flush();
    std::cerr.flush();
    std::clog.flush();
    ::fflush(NULL);
    struct stat sb;
    long n = 0;
    if (out && ::fstat(1, &sb) == 0) n += sb.st_size;
    if (::fstat(2, &sb) == 0 && sb.st_size > 0) {
        std::string text(static_cast<std::size_t>(sb.st_size), ' ');
        if (::pread(2, &text[0], text.size(), 0) < 0 || text.find("Sanitizer") == std::string::npos) n += sb.st_size;
    }
    return n;
}

void onExit(int code, void*) {
    if (::getpid() != g_child) return;
    g_inLib = 0;
    if (!g_inParse) return;
    std::cout.flush();
    ::fflush(stdout);
    std::string text;
    char buf[4096];
    ::lseek(g_stdout, 0, SEEK_SET);
    for (;;) {
        ssize_t r = ::read(g_stdout, buf, sizeof(buf));
        if (r <= 0) break;
        text.append(buf, static_cast<std::size_t>(r));
    }
    emit(g_parseRaw.substr(0, g_parseRaw.size() - 1) + ",\"out\":{\"k\":\"exit\",\"code\":" + jint(code) + ",\"text\":" +
         jstr(text) + "},\"said\":" + jint(said(false)) + "}");
    ::_exit(0);
}

// returns the number of library blocks still allocated at the end
// only: the object whose calls are made, or -1
std::size_t runScenario(const JValue& sc, long only = -1) {
    const long nobj = sc.has("nobj") ? sc.n("nobj") : 1;
    {
        InLib in;
        for (long i = 0; i < nobj; ++i) g_obj[i] = new Args();
    }
    g_vlog.clear();
    for (const JValue& op : sc.at("ops").arr) {
        if (only >= 0 && op.n("o") != only) continue;
        runOp(op);
        g_inLib = 0;
    }
    {
        InLib in;
        for (long i = 0; i < nobj; ++i) {
            delete g_obj[i];
            g_obj[i] = NULL;
        }
    }
    std::string live = liveJson();
    for (std::set<int>::iterator it = g_mine.begin(); it != g_mine.end(); ++it)
        if (g_valids.count(*it)) delete g_valids[*it];
    g_mine.clear();
    for (std::map<int, SlotEntry>::iterator it = g_slots.begin(); it != g_slots.end(); ++it) delete it->second.impl;
    g_slots.clear();
    g_calls.clear();
    g_hooks.clear();
    g_boom.clear();
    g_valids.clear();
    g_vlog.clear();
    emit("{\"op\":\"end\",\"o\":0,\"out\":{\"k\":\"ok\"},\"said\":" + jint(said(true)) + ",\"live\":" + live);
    return g_live;
}

void child(const JValue& sc, int errFd) {
    g_child = ::getpid();
    ::dup2(g_stdout, 1);
    ::dup2(errFd, 2);
    ::on_exit(&onExit, NULL);
    ::alarm(10);
    std::size_t leak = runScenario(sc);
    if (leak > 0) {
        // blocks that are only cached are not lost again the second time
        const int out = g_out;
        g_out = ::open("/dev/null", O_WRONLY);
        const std::size_t again = runScenario(sc);
        g_out = out;
        leak = again - leak;
    }
    g_first = true;
    emit(",\"leak\":" + jint(static_cast<long>(leak)) + "}");
    ::_exit(0);
}

std::string slurp(int fd, std::size_t max) {
    std::string text;
    char buf[4096];
    ::lseek(fd, 0, SEEK_SET);
    while (text.size() < max) {
        ssize_t r = ::read(fd, buf, sizeof(buf));
        if (r <= 0) break;
        text.append(buf, static_cast<std::size_t>(r));
    }
    return text;
}

#ifdef DRIVER_THREADS
// every object in a thread of its own: one trace for each
void threads(const JValue& sc, int errFd) {
    g_child = ::getpid();
    ::dup2(g_stdout, 1);
    ::dup2(errFd, 2);
    ::alarm(60);
    const long nobj = sc.n("nobj");
    const std::string& id = sc.at("id").raw;
    const int result = g_out;
    std::vector<int> fds;
    for (long i = 0; i < nobj; ++i) fds.push_back(::memfd_create("trace", 0));
    std::atomic<long> ready(0);
    std::vector<std::thread> ts;
    for (long i = 0; i < nobj; ++i) {
        ts.push_back(std::thread([&, i]() {
            g_out = fds[i];
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nobj) ::sched_yield();
            try {
                runScenario(sc, i);
            }
            catch (const std::exception& e) {
                std::fprintf(stderr, "driver error: %s\n", e.what());
                ::_exit(98);
            }
            g_first = true;
            emit(",\"leak\":0}");
        }));
    }
    for (std::thread& t : ts) t.join();
    for (long i = 0; i < nobj; ++i) {
        std::string text = "{\"id\":" + id.substr(0, id.size() - 1) + "@" + std::to_string(i) + "\",\"nobj\":" + std::to_string(nobj) + ",\"ev\":[";
        text += slurp(fds[i], 1u << 30) + "]}\n";
        std::size_t done = 0;
        while (done < text.size()) {
            ssize_t r = ::write(result, text.data() + done, text.size() - done);
            if (r <= 0) ::_exit(97);
            done += static_cast<std::size_t>(r);
        }
    }
    ::_exit(0);
}
#endif

// the library's one-time allocations happen here
void warmUp() {
    static const char* line[] = {
        "{\"ops\":[{\"op\":\"add\",\"o\":0,\"names\":[\"-a\",\"--aa\"]},{\"op\":\"nargs\",\"o\":0,\"n\":\"-a\",\"v\":2},"
        "{\"op\":\"defaults\",\"o\":0,\"n\":\"-a\",\"v\":[\"x\",\"y\"]},{\"op\":\"usage\",\"o\":0},"
        "{\"op\":\"parse\",\"o\":0,\"argv\":[\"p\",\"-a\",\"1\",\"2\",\"z\"]},"
        "{\"op\":\"parse\",\"o\":0,\"argv\":[\"p\",\"-z\"]}]}"};
    const int out = g_out;
    g_out = ::open("/dev/null", O_WRONLY);
    std::string text = line[0];
    JValue sc = JParser(text).parse();
    runScenario(sc);
    ::close(g_out);
    g_out = out;
    g_first = true;
}

} // namespace

int main(int argc, char* argv[]) {
    if (argc != 4) {
        std::fprintf(stderr, "usage: driver SCENARIOS OUT FSDIR\n");
        return 2;
    }
    std::ifstream in(argv[1]);
    if (!in) {
        std::fprintf(stderr, "driver: cannot read %s\n", argv[1]);
        return 2;
    }
    g_out = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    std::string base = std::string(argv[2]);
    g_stdout = ::open((base + ".stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    const int err = ::open((base + ".stderr").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (g_out < 0 || g_stdout < 0 || err < 0 || ::chdir(argv[3]) != 0) {
        std::fprintf(stderr, "driver: cannot open output or scratch directory\n");
        return 2;
    }
    struct rlimit core = {0, 0};
    ::setrlimit(RLIMIT_CORE, &core);
    warmUp();
    std::string line;
    long n = 0, crashes = 0, hangs = 0;
    // enough is enough: what has been recorded shows it
    while (crashes < 60 && hangs < 3 && std::getline(in, line)) {
        if (line.empty()) continue;
        ++n;
        JValue sc;
        try {
            sc = JParser(line).parse();
        }
        catch (const std::exception& e) {
            std::fprintf(stderr, "driver: line %ld: %s\n", n, e.what());
            return 2;
        }
        std::string head = "{\"id\":" + sc.at("id").raw + ",\"nobj\":" + (sc.has("nobj") ? sc.at("nobj").raw : "1") + ",\"ev\":[";
#ifdef DRIVER_THREADS
        const std::string crashHead = head;
        head = "";
#endif
        ssize_t w = ::write(g_out, head.data(), head.size());
        (void)w;
        int r1 = ::ftruncate(g_stdout, 0);
        int r2 = ::ftruncate(err, 0);
        (void)r1;
        (void)r2;
        g_first = true;
        const pid_t pid = ::fork();
        if (pid == 0) {
            try {
#ifdef DRIVER_THREADS
                threads(sc, err);
#else
                child(sc, err);
#endif
            }
            catch (const std::exception& e) {
                std::fprintf(stderr, "driver error: %s\n", e.what());
                ::_exit(98);
            }
        }
        int st = 0;
        ::waitpid(pid, &st, 0);
        std::string tail;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97)) {
                std::fprintf(stderr, "driver: scenario %s: %s\n", sc.at("id").raw.c_str(), slurp(err, 2000).c_str());
                return 3;
            }
            ++crashes;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs;
            std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal " + std::to_string(WTERMSIG(st)))
                                              : "exit status " + std::to_string(WEXITSTATUS(st));
            std::string text = slurp(err, 6000);
            g_first = false;
            // an event list that is not empty needs a comma
            tail = "{\"op\":\"crash\",\"o\":0,\"out\":{\"k\":\"crash\",\"w\":" + jstr(why) + "},\"text\":" + jstr(text) + "}";
#ifdef DRIVER_THREADS
            tail = crashHead + tail;
#else
            struct stat sb;
            ::fstat(g_out, &sb);
            char last = 0;
            int rd = ::open(argv[2], O_RDONLY);
            ssize_t g = ::pread(rd, &last, 1, sb.st_size - 1);
            (void)g;
            ::close(rd);
            if (last != '[') tail = "," + tail;
#endif
        }
#ifdef DRIVER_THREADS
        if (!tail.empty()) tail += "]}\n";
#else
        tail += "]}\n";
#endif
        w = ::write(g_out, tail.data(), tail.size());
    }
    return 0;
}
