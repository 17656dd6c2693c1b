// A program that knows the classical runtime only through its C header. Compiled three times (CONFIG) and linked with
// the static library built with the corresponding cargo features.
#include "qir_stdlib.h"

#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#define FULL 0
#define MSG 1
#define MIN 2

using std::string;
using std::vector;
typedef __int128 i128;

// ------------------------------------------------------------------ the program's own handlers

static int handler_fd = -1;
[[maybe_unused]] static void emit(const char* kind, QirString* s)
{
    string line = string(kind) + "\t" + string(__quantum__rt__string_get_data(s), __quantum__rt__string_get_length(s)) + "\n";
    if (handler_fd >= 0 && write(handler_fd, line.data(), line.size()) < 0)
        abort();
}
#if CONFIG != FULL
extern "C" void __quantum__rt__fail(QirString* s)
{
    emit("FAIL", s);
    _exit(77);
}
#endif
#if CONFIG == MIN
extern "C" void __quantum__rt__message(QirString* s)
{
    emit("MESSAGE", s);
}
#endif

// ------------------------------------------------------------------ cases

struct Ctx
{
    string log, error;
    uint64_t transitions = 0, hash = 1469598103934665603ull;
    void step(const char* f, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[400];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        log += b;
        log += '\n';
        transitions++;
    }
    void see(const string& s)
    {
        for (unsigned char ch : s)
            hash = (hash ^ ch) * 1099511628211ull;
        hash = (hash ^ 255) * 1099511628211ull;
    }
    bool same(const string& what, const string& got, const string& want)
    {
        see(got);
        if (got == want)
            return true;
        if (error.empty())
            error = what + " is \"" + got + "\", should be \"" + want + "\"";
        return false;
    }
    bool same(const string& what, long long got, long long want) { return same(what, std::to_string(got), std::to_string(want)); }
    bool ok(const string& what, bool b)
    {
        if (!b && error.empty())
            error = what;
        return b;
    }
    bool bits(const string& what, double got, double want)
    {
        char g[64], w[64];
        // every not-a-number is the same
        snprintf(g, sizeof g, "%a", std::isnan(got) ? NAN : got);
        snprintf(w, sizeof w, "%a", std::isnan(want) ? NAN : want);
        return same(what, std::isnan(got) ? "nan" : g, std::isnan(want) ? "nan" : w);
    }
};

struct Job
{
    string name;
    std::function<uint64_t(bool)> space;
    std::function<void(uint64_t, Ctx&)> run;
};
static vector<Job>& jobs();

static QirString* str(const string& s)
{
    return __quantum__rt__string_create(s.c_str());
}
static string text(QirString* s)
{
    string t(__quantum__rt__string_get_data(s));
    return t;
}
/// Takes a string over: its text, with the length checked.
static string take(QirString* s, Ctx& c)
{
    string t = text(s);
    c.same("the length of \"" + t + "\"", __quantum__rt__string_get_length(s), (long long)t.size());
    __quantum__rt__string_update_reference_count(s, -1);
    return t;
}

// ------------------------------------------------------------------ domains

static vector<int64_t> ints()
{
    std::set<int64_t> v{0, 1, -1, 2, -2, 3, 7, -7, 10, 99, 100, -100, 1000003, INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1};
    for (int b : {7, 8, 15, 16, 31, 32, 33, 47, 52, 53, 62})
        for (int64_t d : {-1, 0, 1})
        {
            v.insert((int64_t(1) << b) + d);
            v.insert(-(int64_t(1) << b) + d);
        }
    return vector<int64_t>(v.begin(), v.end());
}
static vector<double> doubles()
{
    vector<double> v{0.0,      -0.0,    1.0,    -1.0,    0.5,     -0.5,    2.0,     3.0,          -3.0,    0.1,
                     1.0 / 3,  1e-5,    1e5,    1e15,    1e16,    -1e17,   1e300,   -1e300,       1e-300,  M_PI,
                     -M_PI,    M_PI_2,  M_E,    4.5,     -7.25,   100.0,   709.0,   -745.0,       0.75,    1.5,
                     DBL_MAX,  DBL_MIN, DBL_EPSILON,     1 + DBL_EPSILON,  5e-324,  INFINITY,     -INFINITY, NAN,
                     123456789.125, 9007199254740993.0, 2.5, 3.5, -2.5, 1e22, 1e21, 1e-7, 0.3};
    return v;
}
static vector<string> texts()
{
    string longer;
    for (int i = 0; i < 3000; i++)
        longer += char('a' + i % 26);
    return {"", "a", "b", "ab", "hello world", "tab\tand \"quotes\"", "\xc3\xa9t\xc3\xa9", "\xe2\x82\xac \xf0\x9f\x90\x8d", string(255, 'x'), string(256, 'y'), longer, "line\nbreak", "\x01"};
}
template <class T> static const vector<T>& once(vector<T> (*f)())
{
    static vector<T> v = f();
    return v;
}
static string dec(i128 v)
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    string s;
    while (u)
    {
        s.insert(s.begin(), char('0' + int(u % 10)));
        u /= 10;
    }
    return neg ? "-" + s : s;
}

// ------------------------------------------------------------------ strings and conversions

static void values_of_ints(uint64_t i, Ctx& c)
{
    int64_t v = once(ints)[i];
    c.step("int_to_string(%lld)", (long long)v);
    c.same("int_to_string", take(__quantum__rt__int_to_string(v), c), std::to_string(v));
    QirBigInt* b = __quantum__rt__bigint_create_i64(v);
    c.step("bigint_to_string(bigint_create_i64(%lld))", (long long)v);
    c.same("bigint_to_string", take(__quantum__rt__bigint_to_string(b), c), std::to_string(v));
    __quantum__rt__bigint_update_reference_count(b, -1);
}
static void values_of_doubles(uint64_t i, Ctx& c)
{
    double v = once(doubles)[i];
    c.step("double_to_string(%a)", v);
    string s = take(__quantum__rt__double_to_string(v), c);
    if (std::isnan(v))
        c.ok("the text of not-a-number is \"" + s + "\"", strcasecmp(s.c_str(), "nan") == 0);
    else
        c.bits("the value of the text \"" + s + "\"", strtod(s.c_str(), nullptr), v);
}
static void small_values(uint64_t i, Ctx& c)
{
    if (i < 2)
    {
        c.step("bool_to_string(%d)", int(i));
        c.same("bool_to_string", take(__quantum__rt__bool_to_string(i == 1), c), i == 1 ? "true" : "false");
        return;
    }
    const PauliId p[] = {PauliId_I, PauliId_X, PauliId_Y, PauliId_Z};
    const char* n[] = {"PauliI", "PauliX", "PauliY", "PauliZ"};
    c.step("pauli_to_string(%s)", n[i - 2]);
    c.same("pauli_to_string", take(__quantum__rt__pauli_to_string(p[i - 2]), c), n[i - 2]);
}
static void pairs_of_strings(uint64_t i, Ctx& c)
{
    const auto& t = once(texts);
    const string &a = t[i / t.size()], &b = t[i % t.size()];
    QirString *x = str(a), *y = str(b), *z = str(a);
    c.step("string_create(\"%.60s\"), string_create(\"%.60s\"), concatenate, equal", a.c_str(), b.c_str());
    c.same("first string", text(x), a);
    c.same("length", __quantum__rt__string_get_length(x), (long long)a.size());
    c.same("string_equal", __quantum__rt__string_equal(x, y), a == b);
    c.same("string_equal of the same text", __quantum__rt__string_equal(x, z), 1);
    QirString* s = __quantum__rt__string_concatenate(x, y);
    c.same("first operand after concatenation", take(x, c), a);
    c.same("second operand after concatenation", take(y, c), b);
    __quantum__rt__string_update_reference_count(s, 2);
    __quantum__rt__string_update_reference_count(s, -2);
    c.same("string_concatenate", take(s, c), a + b);
    take(z, c);
}

// ------------------------------------------------------------------ big integers

static QirBigInt* big(int64_t v)
{
    return __quantum__rt__bigint_create_i64(v);
}
static string big_text(QirBigInt* b, Ctx& c)
{
    string s = take(__quantum__rt__bigint_to_string(b), c);
    __quantum__rt__bigint_update_reference_count(b, -1);
    return s;
}
static void pairs_of_bigints(uint64_t i, Ctx& c)
{
    const auto& t = once(ints);
    int64_t a = t[i / t.size()], b = t[i % t.size()];
    i128 A = a, B = b;
    QirBigInt *x = big(a), *y = big(b);
    string w = " of " + dec(A) + " and " + dec(B);
    c.step("every binary function%s", w.c_str());
    c.same("sum" + w, big_text(__quantum__rt__bigint_add(x, y), c), dec(A + B));
    c.same("difference" + w, big_text(__quantum__rt__bigint_subtract(x, y), c), dec(A - B));
    c.same("product" + w, big_text(__quantum__rt__bigint_multiply(x, y), c), dec(A * B));
    if (B != 0)
    {
        c.same("quotient" + w, big_text(__quantum__rt__bigint_divide(x, y), c), dec(A / B));
        c.same("modulus" + w, big_text(__quantum__rt__bigint_modulus(x, y), c), dec(A % B));
    }
    c.same("and" + w, big_text(__quantum__rt__bigint_bitand(x, y), c), dec(A & B));
    c.same("or" + w, big_text(__quantum__rt__bigint_bitor(x, y), c), dec(A | B));
    c.same("xor" + w, big_text(__quantum__rt__bigint_bitxor(x, y), c), dec(A ^ B));
    c.same("equal" + w, __quantum__rt__bigint_equal(x, y), A == B);
    c.same("greater" + w, __quantum__rt__bigint_greater(x, y), A > B);
    c.same("greater_eq" + w, __quantum__rt__bigint_greater_eq(x, y), A >= B);
    c.same("first operand afterwards", big_text(x, c), dec(A));
    c.same("second operand afterwards", big_text(y, c), dec(B));
    c.transitions += 13;
}
static void unary_bigints(uint64_t i, Ctx& c)
{
    int64_t a = once(ints)[i];
    i128 A = a;
    QirBigInt* x = big(a);
    string w = " of " + dec(A);
    c.step("every unary function, power and shift%s", w.c_str());
    c.same("negation" + w, big_text(__quantum__rt__bigint_negate(x), c), dec(-A));
    c.same("complement" + w, big_text(__quantum__rt__bigint_bitnot(x), c), dec(~A));
    for (int64_t s : {0, 1, 2, 7, 8, 31, 32, 33, 60, 63})
    {
        c.same("shift left by " + std::to_string(s) + w, big_text(__quantum__rt__bigint_shiftleft(x, s), c), dec(i128((unsigned __int128)A << s)));
        c.same("shift right by " + std::to_string(s) + w, big_text(__quantum__rt__bigint_shiftright(x, s), c), dec(A >> s));
        c.transitions += 2;
    }
    // amounts beyond 32 bits
    for (int64_t s : {(int64_t(1) << 32) + 1, (int64_t(1) << 40)})
        c.same("shift right by " + std::to_string(s) + w, big_text(__quantum__rt__bigint_shiftright(x, s), c), A < 0 ? "-1" : "0");
    i128 p = 1;
    for (int32_t e = 0; e < 9; e++)
    {
        c.same("power " + std::to_string(e) + w, big_text(__quantum__rt__bigint_power(x, e), c), dec(p));
        i128 m;
        if (__builtin_mul_overflow(p, A, &m))
            break;
        p = m;
        c.transitions++;
    }
    c.same("the operand afterwards", big_text(x, c), dec(A));
}
/// All byte strings of length up to 2, and longer ones of boundary bytes.
static const uint8_t edge_bytes[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
static void bytes_of_bigints(uint64_t i, Ctx& c)
{
    vector<uint8_t> b;
    if (i < 256)
        b = {uint8_t(i)};
    else if (i < 256 + 65536)
        b = {uint8_t((i - 256) >> 8), uint8_t(i - 256)};
    else
    {
        uint64_t k = i - 256 - 65536;
        for (int n = 0; n < 5; n++, k /= 5)
            b.push_back(edge_bytes[k % 5]);
    }
    i128 v = int8_t(b.back());
    for (size_t k = b.size() - 1; k-- > 0;)
        v = v * 256 + b[k];
    c.step("bigint_create_array of %zu bytes for %s", b.size(), dec(v).c_str());
    vector<uint8_t> before = b;
    QirBigInt* x = __quantum__rt__bigint_create_array(int32_t(b.size()), reinterpret_cast<char*>(b.data()));
    c.ok("the bytes were changed", b == before);
    c.same("bigint_create_array, lowest byte first", big_text(x, c), dec(v));
}

// ------------------------------------------------------------------ arrays, tuples, memory

static const int32_t sizes[] = {1, 2, 4, 8, 16, 3, 255, 256, 65536, 70000};
static const int64_t counts[] = {0, 1, 2, 3, 17, 300};
static void shapes(uint64_t i, Ctx& c)
{
    const uint64_t n = sizeof sizes / sizeof *sizes;
    int32_t s = sizes[i % n];
    int64_t k = counts[i / n % 6];
    int64_t k2 = counts[i / n / 6];
    QirArray* a = __quantum__rt__array_create_1d(s, k);
    QirArray* b = __quantum__rt__array_create_1d(s, k2);
    c.step("array_create_1d(%d, %lld) and (%d, %lld)", s, (long long)k, s, (long long)k2);
    c.same("array_get_size_1d", __quantum__rt__array_get_size_1d(a), k);
    c.same("array_get_size_1d", __quantum__rt__array_get_size_1d(b), k2);
    auto fill = [&](QirArray* x, int64_t n, int salt) {
        for (int64_t j = 0; j < n; j++)
        {
            char* p = __quantum__rt__array_get_element_ptr_1d(x, j);
            for (int32_t o = 0; o < s; o++)
                if (p[o] != 0)
                {
                    c.ok("element " + std::to_string(j) + " of a new array is not zero", false);
                    return;
                }
            // the ends of the element
            p[s - 1] = char(1 + (j * 7 + salt) % 120);
            p[0] = char(1 + (j * 3 + salt) % 120);
        }
    };
    fill(a, k, 1);
    fill(b, k2, 2);
    QirArray* d = __quantum__rt__array_concatenate(a, b);
    c.same("size of the concatenation", __quantum__rt__array_get_size_1d(d), k + k2);
    auto check = [&](QirArray* x, int64_t from, int64_t n, int salt, const char* what) {
        for (int64_t j = 0; j < n; j++)
        {
            char* p = __quantum__rt__array_get_element_ptr_1d(x, from + j);
            bool good = p[0] == char(1 + (j * 3 + salt) % 120) && (s == 1 || p[s - 1] == char(1 + (j * 7 + salt) % 120));
            for (int32_t o = 1; o + 1 < s && good; o++)
                good = p[o] == 0;
            if (!c.ok(string(what) + " differs at element " + std::to_string(j), good))
                return;
        }
        c.transitions += uint64_t(n);
    };
    check(d, 0, k, 1, "first part of the concatenation");
    check(d, k, k2, 2, "second part of the concatenation");
    QirArray* e = __quantum__rt__array_copy(a, true);
    c.ok("a forced copy is the array itself", e != a);
    if (k > 0)
        __quantum__rt__array_get_element_ptr_1d(e, k - 1)[0] = 0;
    check(a, 0, k, 1, "array after its copy was changed");
    __quantum__rt__array_update_reference_count(a, -1);
    __quantum__rt__array_update_reference_count(b, -1);
    check(d, k, k2, 2, "concatenation after its parts were released");
    __quantum__rt__array_update_reference_count(d, -1);
    __quantum__rt__array_update_reference_count(e, -1);
}
static const int64_t tuple_sizes[] = {0, 1, 8, 16, 24, 255, 256, 4096, 65536, 70000, 5000000};
static void blocks(uint64_t i, Ctx& c)
{
    int64_t n = tuple_sizes[i];
    c.step("tuple_create(%lld), memory_allocate(%lld)", (long long)n, (long long)n);
    char* t = reinterpret_cast<char*>(__quantum__rt__tuple_create(n));
    char* m = static_cast<char*>(__quantum__rt__memory_allocate(uint64_t(n)));
    for (int64_t o = 0; o < n; o++)
        if (!c.ok("new memory is not zero at byte " + std::to_string(o), t[o] == 0 && m[o] == 0))
            break;
    memset(t, 0x5a, size_t(n));
    memset(m, 0x66, size_t(n));
    char* u = reinterpret_cast<char*>(__quantum__rt__tuple_copy(reinterpret_cast<QirTuple*>(t), true));
    c.ok("a forced copy is the tuple itself", u != t);
    for (int64_t o = 0; o < n; o++)
        if (!c.ok("the copy differs at byte " + std::to_string(o), u[o] == 0x5a && m[o] == 0x66))
            break;
    memset(u, 0x11, size_t(n));
    for (int64_t o = 0; o < n; o++)
        if (!c.ok("the tuple changed with its copy at byte " + std::to_string(o), t[o] == 0x5a))
            break;
    __quantum__rt__tuple_update_reference_count(reinterpret_cast<QirTuple*>(t), -1);
    __quantum__rt__tuple_update_reference_count(reinterpret_cast<QirTuple*>(u), -1);
}

// ------------------------------------------------------------------ sharing: words over counts, copies and writes

/// What the explored kinds of object have in common.
struct Kind
{
    const char* name;
    void* (*make)();
    void (*refs)(void*, int32_t);
    void (*aliases)(void*, int32_t);
    void* (*copy)(void*, bool);
    void (*write)(void*, int64_t);
    int64_t (*read)(void*);
};
static const Kind kinds[] = {
    {"array", [] { return (void*)__quantum__rt__array_create_1d(8, 3); },
     [](void* p, int32_t n) { __quantum__rt__array_update_reference_count((QirArray*)p, n); },
     [](void* p, int32_t n) { __quantum__rt__array_update_alias_count((QirArray*)p, n); },
     [](void* p, bool f) { return (void*)__quantum__rt__array_copy((QirArray*)p, f); },
     [](void* p, int64_t v) { *(int64_t*)__quantum__rt__array_get_element_ptr_1d((QirArray*)p, 2) = v; },
     [](void* p) { return *(int64_t*)__quantum__rt__array_get_element_ptr_1d((QirArray*)p, 2); }},
    {"tuple", [] { return (void*)__quantum__rt__tuple_create(24); },
     [](void* p, int32_t n) { __quantum__rt__tuple_update_reference_count((QirTuple*)p, n); },
     [](void* p, int32_t n) { __quantum__rt__tuple_update_alias_count((QirTuple*)p, n); },
     [](void* p, bool f) { return (void*)__quantum__rt__tuple_copy((QirTuple*)p, f); },
     [](void* p, int64_t v) { ((int64_t*)p)[2] = v; }, [](void* p) { return ((int64_t*)p)[2]; }},
};
enum
{
    Ref,
    Unref,
    Alias,
    Unalias,
    Copy,
    Force,
    Write,
    Ref3,
    Letters
};
static const char* letter_names[] = {"reference +1", "reference -1", "alias +1", "alias -1", "copy", "forced copy", "write", "reference +3 -2"};
static void sharing(uint64_t i, int depth, const Kind& k, Ctx& c)
{
    struct Obj
    {
        void* p;
        int64_t v;
        int refs, aliases;
    };
    vector<Obj> o{{k.make(), 0, 1, 0}};
    int64_t next = 1;
    c.step("a new %s", k.name);
    for (int d = 0; d < depth && c.error.empty(); d++)
    {
        int w = int(i % (2 * Letters));
        i /= 2 * Letters;
        Obj& x = w >= Letters && o.size() > 1 ? o.back() : o.front();
        w %= Letters;
        if (x.refs == 0)
            continue;
        c.step("%s of object %d", letter_names[w], int(&x - &o[0]));
        switch (w)
        {
        case Ref: k.refs(x.p, 1); x.refs++; break;
        case Unref:
            if (x.refs > 1 || x.aliases == 0)
            {
                k.refs(x.p, -1);
                x.refs--;
            }
            break;
        case Alias: k.aliases(x.p, 1); x.aliases++; break;
        case Unalias:
            if (x.aliases > 0)
            {
                k.aliases(x.p, -1);
                x.aliases--;
            }
            break;
        case Copy:
        case Force:
        {
            void* p = k.copy(x.p, w == Force);
            if (w == Force || x.aliases > 0)
            {
                for (const Obj& y : o)
                    c.ok("the copy is an object in use", y.refs == 0 || y.p != p);
                int64_t v = x.v;
                o.push_back({p, v, 1, 0});
            }
            else
            {
                c.ok("an object that is not aliased was copied", p == x.p);
                x.refs++;
            }
            break;
        }
        case Write: x.v = next++; k.write(x.p, x.v); break;
        case Ref3: k.refs(x.p, 3); k.refs(x.p, -2); x.refs++; break;
        }
        string seen;
        for (const Obj& y : o)
            if (y.refs > 0)
            {
                c.same("value of object " + std::to_string(&y - &o[0]), k.read(y.p), y.v);
                seen += std::to_string(y.v) + "/" + std::to_string(y.refs) + "/" + std::to_string(y.aliases) + " ";
            }
        c.see(seen);
    }
    for (const Obj& y : o)
        if (y.refs > 0)
        {
            k.aliases(y.p, -y.aliases);
            k.refs(y.p, -y.refs);
        }
}
static uint64_t power(uint64_t b, int e)
{
    uint64_t r = 1;
    while (e-- > 0)
        r *= b;
    return r;
}

// ------------------------------------------------------------------ callables

static vector<string> calls;
static int64_t entry_result;
template <int N> static void entry(QirTuple* cap, QirTuple* args, QirTuple* res)
{
    string s = "entry " + std::to_string(N);
    if (cap)
        s += " capture " + std::to_string(*(int64_t*)cap);
    if (args && N < 2)
        s += " argument " + std::to_string(*(int64_t*)args);
    if (args && N >= 2)
    {
        QirArray* ctls = *(QirArray**)args;
        s += " controls";
        for (int64_t i = 0; i < __quantum__rt__array_get_size_1d(ctls); i++)
            s += " " + std::to_string(*(int64_t*)__quantum__rt__array_get_element_ptr_1d(ctls, i));
        s += " argument " + std::to_string(((int64_t*)args)[1]);
    }
    if (res)
        *(int64_t*)res = entry_result;
    calls.push_back(s);
}
template <int N> static void capture(QirTuple* cap, int32_t n)
{
    calls.push_back("capture " + std::to_string(N) + " " + (cap ? std::to_string(*(int64_t*)cap) : string("null")) + " by " + std::to_string(n));
}
static t_CallableEntry entries[4] = {entry<0>, entry<1>, entry<2>, entry<3>};
static t_CaptureCallback captures[2] = {capture<0>, capture<1>};

/// Words over the functors and copies, then an invocation and both capture callbacks.
static void callables(uint64_t i, int depth, Ctx& c)
{
    bool with_capture = i % 2, with_memory = i / 2 % 2, with_result = i / 4 % 2;
    i /= 8;
    QirTuple* cap = nullptr;
    if (with_capture)
    {
        cap = __quantum__rt__tuple_create(8);
        *(int64_t*)cap = 4321;
    }
    struct C
    {
        QirCallable* p;
        bool adj;
        int ctls, refs, aliases;
    };
    vector<C> v{{__quantum__rt__callable_create(entries, with_memory ? captures : nullptr, cap), false, 0, 1, 0}};
    c.step("callable_create(capture %d, memory table %d)", with_capture, with_memory);
    for (int d = 0; d < depth; d++)
    {
        int w = int(i % 6);
        i /= 6;
        C& x = v.back();
        switch (w)
        {
        case 0: c.step("make_adjoint"); __quantum__rt__callable_make_adjoint(x.p); x.adj = !x.adj; break;
        case 1: c.step("make_controlled"); __quantum__rt__callable_make_controlled(x.p); x.ctls++; break;
        case 2:
        case 3:
        {
            bool force = w == 3;
            c.step(force ? "forced copy" : "copy");
            QirCallable* p = __quantum__rt__callable_copy(x.p, force);
            if (force || x.aliases > 0)
            {
                for (const C& y : v)
                    c.ok("the copy is a callable in use", y.p != p);
                C n{p, x.adj, x.ctls, 1, 0};
                v.push_back(n);
            }
            else
            {
                c.ok("a callable that is not aliased was copied", p == x.p);
                x.refs++;
            }
            break;
        }
        case 4: c.step("alias +1"); __quantum__rt__callable_update_alias_count(x.p, 1); x.aliases++; break;
        case 5: c.step("reference +2 -1"); __quantum__rt__callable_update_reference_count(x.p, 2); __quantum__rt__callable_update_reference_count(x.p, -1); x.refs++; break;
        }
    }
    for (C& x : v)
    {
        // nested argument tuples, one per application of the Controlled functor
        QirTuple* args = __quantum__rt__tuple_create(x.ctls > 0 ? 16 : 8);
        vector<QirTuple*> held_t{args};
        vector<QirArray*> held_a;
        ((int64_t*)args)[x.ctls > 0 ? 1 : 0] = 1234;
        string want = "entry " + std::to_string((x.adj ? 1 : 0) + (x.ctls > 0 ? 2 : 0));
        if (cap)
            want += " capture 4321";
        if (x.ctls > 0)
        {
            want += " controls";
            string list;
            for (int n = 0; n < x.ctls; n++)
            {
                QirArray* a = __quantum__rt__array_create_1d(8, n % 2 + 1);
                string mine;
                for (int k = 0; k <= n % 2; k++)
                {
                    *(int64_t*)__quantum__rt__array_get_element_ptr_1d(a, k) = 10 * (n + 1) + k;
                    mine += " " + std::to_string(10 * (n + 1) + k);
                }
                held_a.push_back(a);
                if (n == 0)
                    ((QirArray**)args)[0] = a;
                else
                {
                    QirTuple* outer = __quantum__rt__tuple_create(16);
                    ((QirArray**)outer)[0] = a;
                    ((QirTuple**)outer)[1] = args;
                    args = outer;
                    held_t.push_back(outer);
                }
                list = mine + list;
            }
            want += list + " argument 1234";
        }
        else
            want += " argument 1234";
        QirTuple* res = with_result ? __quantum__rt__tuple_create(8) : nullptr;
        entry_result = 987654321987;
        calls.clear();
        c.step("callable_invoke");
        __quantum__rt__callable_invoke(x.p, args, res);
        c.same("number of calls", (long long)calls.size(), 1);
        c.same("the call", calls.empty() ? "" : calls[0], want);
        if (res)
        {
            c.same("the result", *(int64_t*)res, entry_result);
            __quantum__rt__tuple_update_reference_count(res, -1);
        }
        if (x.ctls == 0)
        {
            calls.clear();
            c.step("callable_invoke without arguments");
            __quantum__rt__callable_invoke(x.p, nullptr, nullptr);
            c.same("the call without arguments", calls.empty() ? "" : calls[0], want.substr(0, want.find(" argument")));
        }
        for (int32_t n : {1, -1, INT32_MIN, INT32_MAX})
        {
            calls.clear();
            c.step("capture counts by %d", n);
            __quantum__rt__capture_update_reference_count(x.p, n);
            __quantum__rt__capture_update_alias_count(x.p, n);
            string got, exp, who = cap ? "4321" : "null";
            for (const string& s : calls)
                got += s + ";";
            if (with_memory)
                exp = "capture 0 " + who + " by " + std::to_string(n) + ";capture 1 " + who + " by " + std::to_string(n) + ";";
            c.same("capture callbacks", got, exp);
        }
        for (QirArray* a : held_a)
            __quantum__rt__array_update_reference_count(a, -1);
        for (QirTuple* t : held_t)
            __quantum__rt__tuple_update_reference_count(t, -1);
        __quantum__rt__callable_update_alias_count(x.p, -x.aliases);
        __quantum__rt__callable_update_reference_count(x.p, -x.refs);
    }
    if (cap)
        __quantum__rt__tuple_update_reference_count(cap, -1);
}

// ------------------------------------------------------------------ math

struct Unary
{
    const char* name;
    double (*f)(double);
    double (*g)(double);
};
#define U(n, g) {#n, __quantum__qis__##n##__body, g}
static const Unary unary[] = {U(sin, std::sin),     U(cos, std::cos),     U(tan, std::tan),     U(sinh, std::sinh),
                              U(cosh, std::cosh),   U(tanh, std::tanh),   U(arcsin, std::asin), U(arccos, std::acos),
                              U(arctan, std::atan), U(sqrt, std::sqrt),   U(log, std::log)};
static const uint64_t n_unary = sizeof unary / sizeof *unary;
static bool close(double a, double b)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= 4 * DBL_EPSILON * std::fmax(std::fabs(a), std::fabs(b)) + DBL_MIN;
}
static void math_unary(uint64_t i, Ctx& c)
{
    const Unary& u = unary[i % n_unary];
    double x = once(doubles)[i / n_unary];
    double got = u.f(x), want = u.g(x);
    char b[200];
    snprintf(b, sizeof b, "%s(%a) is %a, should be %a", u.name, x, got, want);
    c.step("%s(%a)", u.name, x);
    c.see(b);
    c.ok(b, close(got, want));
}
static void math_tests(uint64_t i, Ctx& c)
{
    double x = once(doubles)[i];
    c.step("isnan, isinf, isnegativeinfinity of %a", x);
    c.same("isnan", __quantum__qis__isnan__body(x), std::isnan(x));
    c.same("isinf", __quantum__qis__isinf__body(x), x == INFINITY);
    c.same("isnegativeinfinity", __quantum__qis__isnegativeinfinity__body(x), x == -INFINITY);
    c.ok("nan", std::isnan(__quantum__qis__nan__body()));
    c.bits("infinity", __quantum__qis__infinity__body(), INFINITY);
}
static void math_binary(uint64_t i, Ctx& c)
{
    const auto& t = once(doubles);
    double a = t[i / t.size()], b = t[i % t.size()];
    double at = __quantum__qis__arctan2__body(a, b), rm = __quantum__qis__ieeeremainder__body(a, b);
    char m[200];
    c.step("arctan2, ieeeremainder of %a, %a", a, b);
    snprintf(m, sizeof m, "arctan2(%a, %a) is %a, should be %a", a, b, at, std::atan2(a, b));
    c.see(m);
    c.ok(m, close(at, std::atan2(a, b)));
    snprintf(m, sizeof m, "ieeeremainder(%a, %a) is %a, should be %a", a, b, rm, std::remainder(a, b));
    c.see(m);
    c.ok(m, (std::isnan(rm) && std::isnan(std::remainder(a, b))) || rm == std::remainder(a, b));
}

// ------------------------------------------------------------------ random values and failures

/// Runs f in a child process: what it wrote, and how it ended.
static string in_child(const std::function<void()>& f, int& status)
{
    int p[2];
    if (pipe(p) != 0)
        abort();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        rlimit none{0, 0};
        setrlimit(RLIMIT_CORE, &none);
        alarm(20);
        close(p[0]);
        handler_fd = p[1];
        dup2(p[1], 1);
        if (!freopen("/dev/null", "w", stderr))
            _exit(99);
        f();
        _exit(55);
    }
    close(p[1]);
    string s;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0)
        s.append(b, size_t(n));
    close(p[0]);
    waitpid(pid, &status, 0);
    return s;
}
static string ending(int s)
{
    return WIFSIGNALED(s) ? "signal " + std::to_string(WTERMSIG(s)) : "status " + std::to_string(WEXITSTATUS(s));
}
/// The failure reaches the failure handler once, with the message, and the program does not go on.
static void fails(Ctx& c, const string& message, const std::function<void()>& f)
{
    int st;
    string out = in_child(f, st);
#if CONFIG == FULL
    c.same("output", out, "INFO\t" + message + "\n");
    c.ok("the program ended with " + ending(st) + ", not by aborting", WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
#else
    c.same("what the failure handler received", out, "FAIL\t" + message + "\n");
    c.same("the end of the program", ending(st), "status 77");
#endif
}
static const char* messages[] = {"", "boom", "two words", "a: 1 vs 2"};
static const int64_t ends[] = {0, 1, -1, 7, INT64_MIN, INT64_MAX, int64_t(1) << 40};
static const double dends[] = {0.0, -1.0, 1.5, 1e300, -1e300, 0.25, 5e-324};
static void failures(uint64_t i, Ctx& c)
{
    if (i < 4)
    {
        c.step("fail(\"%s\")", messages[i]);
        fails(c, messages[i], [&] { __quantum__rt__fail(str(messages[i])); });
        return;
    }
    i -= 4;
    if (i < 36)
    {
        int32_t a = int32_t(1 + i / 6), b = int32_t(1 + i % 6);
        c.step("array_concatenate of elements of %d and %d bytes", a, b);
        auto f = [=] {
            QirArray *x = __quantum__rt__array_create_1d(a, 2), *y = __quantum__rt__array_create_1d(b, 2);
            QirArray* z = __quantum__rt__array_concatenate(x, y);
            _exit(__quantum__rt__array_get_size_1d(z) == 4 ? 33 : 34);
        };
        if (a != b)
            fails(c, "Cannot concatenate arrays with differing element sizes: " + std::to_string(a) + " vs " + std::to_string(b), f);
        else
        {
            int st;
            string out = in_child(f, st);
            c.same("output", out, "");
            c.same("the end of the program", ending(st), "status 33");
        }
        return;
    }
    i -= 36;
    if (i < 49)
    {
        int64_t a = ends[i / 7], b = ends[i % 7];
        c.step("drawrandomint(%lld, %lld)", (long long)a, (long long)b);
        if (a > b)
            fails(c, "Invalid Argument: minimum > maximum", [=] { __quantum__qis__drawrandomint__body(a, b); });
        else
            for (int k = 0; k < 8; k++)
            {
                int64_t v = __quantum__qis__drawrandomint__body(a, b);
                c.ok("drew " + std::to_string(v), v >= a && v <= b);
            }
        return;
    }
    i -= 49;
    double a = dends[i / 7], b = dends[i % 7];
    c.step("drawrandomdouble(%a, %a)", a, b);
    if (a > b)
        fails(c, "Invalid Argument: minimum > maximum", [=] { __quantum__qis__drawrandomdouble__body(a, b); });
    else
        for (int k = 0; k < 8; k++)
        {
            double v = __quantum__qis__drawrandomdouble__body(a, b);
            c.ok("drew " + std::to_string(v), v >= a && v <= b);
        }
}
/// Pairs of messages, in order.
static void message_output(uint64_t i, Ctx& c)
{
    const char* t[] = {"", "one", "two words", "semi;colon"};
    string a = t[i / 4], b = t[i % 4];
    c.step("message(\"%s\"), message(\"%s\")", a.c_str(), b.c_str());
    int st;
    string out = in_child(
        [&] {
            QirString *x = str(a), *y = str(b);
            __quantum__rt__message(x);
            __quantum__rt__message(y);
            fflush(stdout);
            _exit(text(x) == a && text(y) == b ? 33 : 34);
        },
        st);
#if CONFIG == MIN
    c.same("what the message handler received", out, "MESSAGE\t" + a + "\nMESSAGE\t" + b + "\n");
#else
    c.same("output", out, "INFO\t" + a + "\nINFO\t" + b + "\n");
#endif
    c.same("the end of the program", ending(st), "status 33");
}

// ------------------------------------------------------------------ all of it

static vector<Job>& jobs()
{
    static vector<Job> v;
    if (!v.empty())
        return v;
    auto n = [](uint64_t k) { return [k](bool) { return k; }; };
    v.push_back({"integers as text", n(once(ints).size()), values_of_ints});
    v.push_back({"doubles as text", n(once(doubles).size()), values_of_doubles});
    v.push_back({"truth values and Paulis as text", n(6), small_values});
    v.push_back({"pairs of strings", n(once(texts).size() * once(texts).size()), pairs_of_strings});
    v.push_back({"pairs of big integers", n(once(ints).size() * once(ints).size()), pairs_of_bigints});
    v.push_back({"big integers", n(once(ints).size()), unary_bigints});
    v.push_back({"big integers from bytes", n(256 + 65536 + 3125), bytes_of_bigints});
    v.push_back({"shapes of arrays", n(360), shapes});
    v.push_back({"tuples and memory", n(sizeof tuple_sizes / sizeof *tuple_sizes), blocks});
    for (const Kind& k : kinds)
        for (int d = 1; d <= 5; d++)
            v.push_back({"sharing of a " + string(k.name) + ", words of " + std::to_string(d),
                         [d](bool thorough) { return d < 5 || thorough ? power(2 * Letters, d) : 0; },
                         [d, &k](uint64_t i, Ctx& c) { sharing(i, d, k, c); }});
    for (int d = 0; d <= 6; d++)
        v.push_back({"callables, words of " + std::to_string(d), [d](bool thorough) { return d < 5 || thorough ? 8 * power(6, d) : 0; },
                     [d](uint64_t i, Ctx& c) { callables(i, d, c); }});
    v.push_back({"math functions", n(n_unary * once(doubles).size()), math_unary});
    v.push_back({"math predicates", n(once(doubles).size()), math_tests});
    v.push_back({"math functions of two", n(once(doubles).size() * once(doubles).size()), math_binary});
    v.push_back({"failures and random values", n(4 + 36 + 49 + 49), failures});
    v.push_back({"messages", n(16), message_output});
    return v;
}

extern "C" const char* capi_job(int j, int thorough, uint64_t* space)
{
    auto& v = jobs();
    if (j >= int(v.size()))
        return nullptr;
    *space = v[size_t(j)].space(thorough != 0);
    return v[size_t(j)].name.c_str();
}
/// 0: held; 1: violated. log: 2000 bytes at least; error likewise.
extern "C" int capi_run(int j, uint64_t i, char* error, char* log, size_t cap, uint64_t* transitions, uint64_t* state)
{
    Ctx c;
    jobs()[size_t(j)].run(i, c);
    snprintf(error, cap, "%s", c.error.c_str());
    snprintf(log, cap, "%s", c.log.c_str());
    *transitions = c.transitions;
    *state = c.hash;
    return c.error.empty() ? 0 : 1;
}
