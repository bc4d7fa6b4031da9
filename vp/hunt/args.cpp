// Executable oracle for C26: random option tables and argument vectors against an independent interpretation.
#include <pystd2026_argparse.hpp>
#include <errno.h>
#include <setjmp.h>
#include <limits.h>
#include "hunt.hpp"
namespace P = pystd2026;
using namespace hunt;
extern "C" void __lsan_disable();
static jmp_buf out;
static bool inside;
static int exit_code;
extern "C" {
int __real_puts(const char *);
int __real_putchar(int);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fputc(int, FILE *);
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int c) {
    if(!inside)
        __real_exit(c);
    exit_code = c;
    longjmp(out, 1);
}
int __wrap_printf(const char *f, ...) {
    if(inside)
        return 1;
    va_list a;
    va_start(a, f);
    int r = vprintf(f, a);
    va_end(a);
    return r;
}
int __wrap_fprintf(FILE *o, const char *f, ...) {
    if(inside)
        return 1;
    va_list a;
    va_start(a, f);
    int r = vfprintf(o, f, a);
    va_end(a);
    return r;
}
int __wrap_puts(const char *s) { return inside ? 1 : __real_puts(s); }
int __wrap_putchar(int s) { return inside ? 1 : __real_putchar(s); }
int __wrap_fputc(int s, FILE *f) { return inside ? 1 : __real_fputc(s, f); }
size_t __wrap_fwrite(const void *p, size_t a, size_t n, FILE *f) { return inside ? n : __real_fwrite(p, a, n, f); }
}
#define CHECK(c, ...)          \
    do {                       \
        if(!(c))               \
            fail(__VA_ARGS__); \
    } while(0)
// 0 text, 1 array, 2 bool, 3 integer; actions: 0 store, 1 true, 2 false, 3 append
struct Opt {
    char name[20], lng[20], sh;
    int type, action;
    bool def, has_min, has_max;
    int64_t defi, mn, mx;
    char deft[2][20];
    int ndef;
} opts[6];
static int nopts;
static bool pos_ok;
static char args[14][60];
static int argc;
struct Val {
    bool present;
    bool b;
    int64_t i;
    char t[60];
    char arr[20][60];
    int n;
} vals[6];
static char pos[14][60], extra[14][60];
static int npos, nextra;
enum Result { OK, EXIT, HELP, THROW };
static Result apply(int k, const char *v) {
    Opt &o = opts[k];
    Val &w = vals[k];
    w.present = true;
    switch(o.action) {
    case 1: w.b = true; return OK;
    case 2: w.b = false; return OK;
    case 3: strcpy(w.arr[w.n++], v); return OK;
    }
    switch(o.type) {
    case 0: strcpy(w.t, v); return OK;
    case 1:
        w.n = 1;
        strcpy(w.arr[0], v);
        return OK;
    case 2: return THROW;
    }
    // decimal integers, as strtol takes them
    const char *p = v;
    while(*p == ' ' || *p >= 9 && *p <= 13)
        ++p;
    bool neg = *p == '-';
    if(*p == '-' || *p == '+')
        ++p;
    if(!*p)
        return THROW;
    __int128 x = 0;
    for(; *p; ++p) {
        if(*p < '0' || *p > '9')
            return THROW;
        x = x * 10 + (*p - '0');
        if(x > ((__int128)1 << 100))
            x = (__int128)1 << 100;
    }
    if(neg)
        x = -x;
    if(x < LONG_MIN || x > LONG_MAX || o.has_min && x < o.mn || o.has_max && x > o.mx)
        return THROW;
    w.i = (int64_t)x;
    return OK;
}
static Result expect() {
    memset(vals, 0, sizeof vals);
    npos = nextra = 0;
    for(int k = 0; k < nopts; ++k)
        if(opts[k].def) {
            Val &w = vals[k];
            w.present = true;
            w.i = opts[k].defi;
            w.b = opts[k].defi & 1;
            strcpy(w.t, opts[k].deft[0]);
            for(w.n = 0; w.n < opts[k].ndef; ++w.n)
                strcpy(w.arr[w.n], opts[k].deft[w.n]);
        }
    for(int i = 1; i < argc; ++i) {
        const char *a = args[i];
        if(!*a)
            return EXIT;
        if(!strcmp(a, "-h") || !strcmp(a, "--help"))
            return HELP;
        if(!strcmp(a, "--")) {
            while(++i < argc)
                strcpy(extra[nextra++], args[i]);
            break;
        }
        if(*a != '-') {
            if(!pos_ok)
                return EXIT;
            strcpy(pos[npos++], a);
            continue;
        }
        int k = 0;
        const char *v = nullptr;
        if(a[1] == '-') {
            size_t n = strcspn(a, "=");
            for(; k < nopts; ++k)
                if(strlen(opts[k].lng) == n && !memcmp(a, opts[k].lng, n))
                    break;
            if(a[n])
                v = a + n + 1;
        } else {
            if(!a[1])
                return EXIT;
            for(; k < nopts; ++k)
                if(opts[k].sh && opts[k].sh == a[1])
                    break;
            if(a[2])
                v = a + 2;
        }
        if(k == nopts)
            return EXIT;
        bool takes = opts[k].action == 0 || opts[k].action == 3;
        if(!takes && v)
            return EXIT;
        if(takes && !v) {
            if(i + 1 >= argc)
                return EXIT;
            v = args[++i];
        }
        Result r = apply(k, v ? v : "");
        if(r != OK)
            return r;
    }
    return OK;
}
static const char *names[] = {"", "a", "ab", "b", "file", "f", "size", "x-y", "=", "\xc3\xa4"};
static void table() {
    nopts = below(7);
    pos_ok = below(3);
    for(int k = 0; k < nopts; ++k) {
        Opt &o = opts[k];
        memset(&o, 0, sizeof o);
        sprintf(o.name, "n%d", k);
        for(int tries = 0; tries < 9; ++tries) {
            sprintf(o.lng, "--%s", names[1 + below(7)]);
            bool taken = false;
            for(int q = 0; q < k; ++q)
                taken |= !strcmp(opts[q].lng, o.lng);
            if(!taken)
                break;
            o.lng[0] = 0;
        }
        if(below(6) == 0)
            o.lng[0] = 0;
        o.sh = below(4) ? "abfsx1=AFX"[below(10)] : 0;
        for(int q = 0; q < k; ++q)
            if(opts[q].sh == o.sh)
                o.sh = 0;
        o.type = below(4);
        o.action = o.type == 2 ? (below(8) ? 1 + below(2) : 0) : o.type == 1 && below(3) ? 3 : 0;
        o.def = below(3) == 0;
        o.defi = below(100);
        o.ndef = below(3);
        strcpy(o.deft[0], "dflt");
        strcpy(o.deft[1], "");
        if(o.type == 3) {
            o.has_min = below(3) == 0;
            o.has_max = below(3) == 0;
            o.mn = (int64_t)below(40) - 20;
            o.mx = o.mn + (int64_t)below(30);
        }
    }
}
static void token(char *o) {
    static const char *plain[] = {"", "-", "--", "-h", "--help", "file", "12", "-7", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "3x", "x", " 4", "+5", "0x10", "a=b", "-=", "--=", "=", "--help=1", "-hx"};
    o[0] = 0;
    int w = below(10);
    if(w < 3 || !nopts) {
        strcpy(o, below(8) == 0 ? plain[below(5)] : plain[5 + below(18)]);
        return;
    }
    Opt &p = opts[below(nopts)];
    if(w < 7) {
        strcpy(o, p.lng);
        if(below(12) == 0)
            strcat(o, "q");
        if(p.action == 1 || p.action == 2 ? below(12) == 0 : below(2)) {
            strcat(o, "=");
            strcat(o, plain[below(18)]);
        }
    } else {
        sprintf(o, "-%c", p.sh ? p.sh : 'Z');
        if(below(8) == 0 && p.sh) // a letter of the other case is another letter
            o[1] ^= 0x20;
        if(p.action == 1 || p.action == 2 ? below(12) == 0 : below(2))
            strcat(o, plain[below(18)]);
    }
}
static void arguments() {
    strcpy(args[0], "prog");
    argc = 1 + below(6);
    for(int i = 1; i < argc; ++i)
        token(args[i]);
}
static P::ArgParse *build() {
    auto *ap = new P::ArgParse(P::U8String("about"));
    if(pos_ok)
        ap->permit_posargs();
    for(int k = 0; k < nopts; ++k) {
        Opt &o = opts[k];
        P::Argument a;
        a.name = P::CString(o.name);
        a.long_arg = P::CString(o.lng);
        a.short_arg = o.sh;
        static const P::ArgumentType ty[] = {P::ArgumentType::String, P::ArgumentType::StringArray, P::ArgumentType::Boolean, P::ArgumentType::Integer};
        static const P::ArgumentAction ac[] = {P::ArgumentAction::Store, P::ArgumentAction::StoreTrue, P::ArgumentAction::StoreFalse, P::ArgumentAction::AppendArray};
        a.type = ty[o.type];
        a.aaction = ac[o.action];
        if(o.def)
            switch(o.type) {
            case 0: a.default_value = P::ArgumentValue(P::CString(o.deft[0])); break;
            case 1: {
                P::Vector<P::CString> v;
                for(int i = 0; i < o.ndef; ++i)
                    v.push_back(P::CString(o.deft[i]));
                a.default_value = P::ArgumentValue(static_cast<P::Vector<P::CString> &&>(v));
                break;
            }
            case 2: a.default_value = P::ArgumentValue((bool)(o.defi & 1)); break;
            case 3: a.default_value = P::ArgumentValue(o.defi); break;
            }
        if(o.has_min)
            a.minval = o.mn;
        if(o.has_max)
            a.maxval = o.mx;
        ap->add_argument(a);
        if(below(20) == 0) {
            bool t = false;
            try {
                P::Argument d;
                d.name = P::CString(o.name);
                ap->add_argument(d);
            } catch(const P::PyException &) {
                t = true;
            }
            CHECK(t, "a duplicate name is accepted");
        }
    }
    return ap;
}
static void one(P::ArgParse *ap) {
    char line[1500] = "";
    for(int k = 0; k < nopts; ++k)
        sprintf(line + strlen(line), "{%s %s %c type %d action %d%s} ", opts[k].name, opts[k].lng, opts[k].sh ? opts[k].sh : '.', opts[k].type, opts[k].action, opts[k].def ? " default" : "");
    for(int i = 1; i < argc; ++i)
        sprintf(line + strlen(line), " [%s]", args[i]);
    setcase("%s%s", pos_ok ? "posargs " : "", line);
    Result e = expect(), r;
    const char **argv = (const char **)malloc(argc * sizeof(char *));
    for(int i = 0; i < argc; ++i)
        argv[i] = strdup(args[i]);
    static P::ParseOutput *got;
    got = new P::ParseOutput();
    exit_code = -1;
    inside = true;
    if(setjmp(out) == 0) {
        try {
            P::Optional<P::ParseOutput> p = ap->parse_args(argc, argv);
            inside = false;
            CHECK((bool)p, "nothing is returned");
            *got = static_cast<P::ParseOutput &&>(p.value());
            r = OK;
        } catch(const P::PyException &) {
            r = THROW;
        }
    } else
        r = exit_code == 0 ? HELP : EXIT;
    inside = false;
    static const char *what[] = {"is accepted", "is reported as an error", "shows the help", "is reported as an error by an exception"};
    bool er = e == EXIT || e == THROW, rr = r == EXIT || r == THROW;
    CHECK(r == e || er && rr, "%s although it %s", what[r], e == OK ? "is right" : e == HELP ? "asks for help" : "has no meaning");
    if(r == OK) {
        for(int k = 0; k < nopts; ++k) {
            Val &w = vals[k];
            Opt &o = opts[k];
            const P::ParseOutput &c = *got;
            auto *v = c.value_of(o.name);
            CHECK(v == got->value_of(o.name), "two values of %s", o.name);
            CHECK(!!v == w.present, "%s has %s", o.name, v ? "a value" : "no value");
            if(!v)
                continue;
            if(o.type == 0)
                CHECK(v->get<P::CString>() == w.t, "%s is %s", o.name, v->get<P::CString>().c_str());
            else if(o.type == 2)
                CHECK(v->get<bool>() == w.b, "%s is %d", o.name, v->get<bool>());
            else if(o.type == 3)
                CHECK(v->get<int64_t>() == w.i, "%s is %ld", o.name, v->get<int64_t>());
            else {
                auto &a = v->get<P::Vector<P::CString>>();
                CHECK((int)a.size() == w.n, "%s has %zu entries", o.name, a.size());
                for(int i = 0; i < w.n; ++i)
                    CHECK(a[i] == w.arr[i], "entry %d of %s is %s", i, o.name, a[i].c_str());
            }
        }
        CHECK(!got->value_of("other"), "a value nobody asked for");
        CHECK((int)got->pr.posargs.size() == npos && (int)got->pr.extra_args.size() == nextra, "%zu positional and %zu further arguments", got->pr.posargs.size(), got->pr.extra_args.size());
        for(int i = 0; i < npos; ++i)
            CHECK(got->pr.posargs[i] == pos[i], "positional argument %d is %s", i, got->pr.posargs[i].c_str());
        for(int i = 0; i < nextra; ++i)
            CHECK(got->pr.extra_args[i] == extra[i], "further argument %d is %s", i, got->pr.extra_args[i].c_str());
    }
    delete got;
    for(int i = 0; i < argc; ++i)
        free((void *)argv[i]);
    free(argv);
}
int main() {
    init();
    __lsan_disable();
    while(more()) {
        table();
        P::ArgParse *ap = build();
        for(int k = 0; k < 30; ++k) {
            arguments();
            one(ap);
        }
        delete ap;
    }
    finish();
}
