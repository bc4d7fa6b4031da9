// Contracts of ArgParse (C26). Callees are replaced by their contracts (the stub_* functions, see specs/args.py) one level at a time:
// parse_args over process_*_argument; these over find_*_argument and argument_matched; find_*_argument over the comparison of texts.
#include <pystd2026_argparse.hpp>
#include <stdio.h>
#include <errno.h>
#include "vp.hpp"
namespace P = pystd2026;
using P::ArgParse;
using P::Argument;
using P::CStringView;
using P::ParseResult;
extern "C" void *vp_table(uint64_t n, uint64_t stride); // n objects of that size with arbitrary contents
extern "C" void *vp_argv(uint64_t n);                   // n pointers to arbitrary C strings
extern "C" char vp_at(const char *p, uint64_t i);
extern "C" bool vp_hasbyte(const char *p, uint64_t n, char c);
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n);
extern "C" void vp_cstrobj(void *);
extern "C" void vp_bytes_wf(void *);
static bool may_exit;   // there is an error that ends the program
static bool may_help;   // help was asked for
extern "C" {
int printf(const char *, ...) { return 0; }
int puts(const char *) { return 0; }
int fprintf(FILE *, const char *, ...) { return 0; }
void exit(int c) noexcept {
    vp_assert(c == 0 ? may_help : may_exit, "the program ends only on an error, or after showing the help");
    vp_assume(false);
    for(;;)
        ;
}
}
// ---- a parser with an arbitrary table of options
static Argument *table;
static uint64_t n_args;
alignas(ArgParse) static char storage[sizeof(ArgParse)];
static ArgParse *world() {
    may_exit = may_help = false;
    n_args = vp_u64();
    vp_assume(n_args < (1ull << 32));
    table = (Argument *)vp_table(n_args, sizeof(Argument));
    ArgParse *ap = (ArgParse *)storage;
    *(Argument **)&ap->arguments.buffer = table;
    ap->arguments.buf_capacity = n_args;
    ap->arguments.num_entries = n_args;
    ap->store_posargs = vp_bool();
    return ap;
}
// ---- find_long_argument, find_short_argument
static const char *key;
static uint64_t key_size;
static const char *flags; // flags[i]: the name of entry i is the key
static const char *names; // where the names are
static uint64_t n_names, stride;
extern "C" bool stub_name_eq(const P::CString *self, const CStringView &v) {
    uint64_t off = (const char *)self - names;
    uint64_t i = off / stride;
    vp_assert((off == i * stride) & (i < n_names), "the name of an entry is compared");
    vp_assert((v.data() == key) & (v.size() == key_size), "with the text asked for");
    return vp_at(flags, i) == 1;
}
static void lookup(const char *at, uint64_t n, uint64_t sz) {
    names = at;
    n_names = n;
    stride = sz;
    flags = vp_bytes(n);
    key_size = vp_u64();
    key = vp_bytes(key_size);
}
// the values of options
static void find_value(int how) {
    uint64_t n = vp_u64();
    vp_assume(n < (1ull << 32));
    P::ArgValue *t = (P::ArgValue *)vp_table(n, sizeof(P::ArgValue));
    alignas(P::ParseOutput) static char res[sizeof(P::ParseOutput)];
    P::ParseOutput *o = (P::ParseOutput *)res;
    *(P::ArgValue **)&o->pr.values.buffer = t;
    o->pr.values.buf_capacity = o->pr.values.num_entries = n;
    lookup((const char *)&t->name, n, sizeof(P::ArgValue));
    CStringView k(key, key_size);
    const void *got = how == 0 ? (const void *)o->pr.find(k) : how == 1 ? (const void *)o->value_of(k) : (const void *)((const P::ParseOutput *)o)->value_of(k);
    if(!got)
        vp_assert(!vp_hasbyte(flags, n, 1), "no value has that name");
    else {
        uint64_t off = (const char *)got - (how == 0 ? (const char *)t : (const char *)&t->v);
        uint64_t i = off / sizeof(P::ArgValue);
        vp_assert((off == i * sizeof(P::ArgValue)) & (i < n), "the value of an entry is returned");
        vp_assert((vp_at(flags, i) == 1) & !vp_hasbyte(flags, i, 1), "the first one that has the name");
    }
}
void spec_args_find_value() { find_value(0); }
void spec_args_find_value_of() { find_value(1); }
void spec_args_find_value_of_const() { find_value(2); }
void spec_args_find_long() {
    ArgParse *ap = world();
    lookup((const char *)&table->long_arg, n_args, sizeof(Argument));
    auto r = ap->find_long_argument(CStringView(key, key_size));
    if(r) {
        uint64_t k = r.value();
        vp_assert((k < n_args) & (vp_at(flags, k) == 1), "the option found has that name");
        vp_assert(!vp_hasbyte(flags, k, 1), "it is the first one");
    } else
        vp_assert(!vp_hasbyte(flags, n_args, 1), "no option has that name");
}
void spec_args_find_short() {
    ArgParse *ap = world();
    char c = vp_char();
    uint64_t j = vp_u64();
    vp_assume(j < n_args);
    const char cj = table[j].short_arg;
    auto r = ap->find_short_argument(c);
    if(r) {
        uint64_t k = r.value();
        vp_assert(k < n_args && table[k].short_arg == c, "the option found has that letter");
        vp_assert(!(j < k) || cj != c, "it is the first one");
    } else
        vp_assert(cj != c, "no option has that letter");
}
// ---- process_long_argument, process_short_argument
static const char *tok, *next_tok;
static uint64_t tok_size, next_size;
static bool has_next, found, takes, is_long, has_value;
static uint64_t found_index, matched, value_at;
static ParseResult *result_obj;
extern "C" void stub_find(P::Optional<size_t> *ret, ArgParse *, CStringView v) {
    uint64_t s = v.size();
    vp_assert(is_long & (v.data() == tok), "the beginning of the argument is the option's name");
    vp_assert(((s == tok_size) | ((s < tok_size) & (vp_at(tok, s) == '='))) & !vp_hasbyte(tok, s, '='), "the option's name ends at the first equals sign");
    has_value = s != tok_size;
    value_at = s + 1;
    new(ret) P::Optional<size_t>();
    if(found)
        *ret = found_index;
    takes = found && table[found_index].needs_parameter();
    may_exit = !found || (takes ? !has_value && !has_next : has_value);
}
extern "C" void stub_find_short(P::Optional<size_t> *ret, ArgParse *, char c) {
    vp_assert(!is_long && c == vp_at(tok, 1), "the letter of a short option");
    has_value = tok_size > 2;
    value_at = 2;
    new(ret) P::Optional<size_t>();
    if(found)
        *ret = found_index;
    takes = found && table[found_index].needs_parameter();
    may_exit = !found || (takes ? !has_value && !has_next : has_value);
}
extern "C" void stub_matched(ArgParse *, ParseResult *pr, size_t i, CStringView v) {
    vp_assert(!may_exit && pr == result_obj && i == found_index, "the option found takes its action");
    ++matched;
    if(!takes)
        return;
    if(has_value)
        vp_assert((v.data() == tok + value_at) & (v.size() == tok_size - value_at), "its value is the rest of the argument");
    else
        vp_assert((v.data() == next_tok) & (v.size() == next_size), "its value is the next argument");
}
static void process(bool lng) {
    ArgParse *ap = world();
    is_long = lng;
    matched = 0;
    tok_size = vp_u64();
    vp_assume(tok_size >= (lng ? 3 : 2));
    tok = vp_cstr(tok_size);
    vp_assume((vp_at(tok, 0) == '-') & ((vp_at(tok, 1) == '-') == lng));
    next_size = vp_u64();
    next_tok = vp_cstr(next_size);
    has_next = vp_bool();
    found = vp_bool();
    found_index = vp_u64();
    vp_assume(!found || found_index < n_args);
    if(found)
        takes = table[found_index].needs_parameter();
    // the arguments before this one are not looked at, there are none behind argc
    const char *both[2] = {tok, next_tok};
    const char *only[1] = {tok};
    const char **argv = has_next ? both : only;
    int argc = has_next ? 2 : 1;
    alignas(ParseResult) static char res[sizeof(ParseResult)];
    result_obj = (ParseResult *)res;
    CStringView current(tok, tok_size);
    int extra = lng ? ap->process_long_argument(argc, argv, *result_obj, 0, current) : ap->process_short_argument(argc, argv, *result_obj, 0, current);
    vp_assert(found && matched == 1, "every option that is accepted acts once");
    vp_assert(extra == (takes && !has_value ? 1 : 0), "the next argument is used up exactly if it is the value");
}
void spec_args_process_long() { process(true); }
void spec_args_process_short() { process(false); }
// ---- parse_args
static const char **the_argv;
static uint64_t the_argc, next, extras;
static ArgParse *the_parser;
static bool starts(const char *a, const char *lit, uint64_t n) {
    bool r = true;
#define BYTE(i) \
    if(n > i)   \
        r = r & (vp_at(a, i) == lit[i]);
    BYTE(0) BYTE(1) BYTE(2) BYTE(3) BYTE(4) BYTE(5) BYTE(6)
    vp_assert(n <= 7, "a short literal");
    return r;
}
static bool tok_is(const char *a, const char *lit, uint64_t n) { // n bytes and the NUL
    return starts(a, lit, n + 1);
}
extern "C" void stub_values(ParseResult *ret, const ArgParse *) { new(ret) ParseResult(); }
static int processed(int argc, const char **argv, int i, CStringView current, bool lng) {
    vp_assert((argc == (int)the_argc) & (argv == the_argv) & ((uint64_t)i == next) & (next < the_argc), "the next argument is looked at");
    vp_assert(extras == 0, "before any --");
    const char *a = the_argv[next];
    vp_assert((current.data() == a) & (current.size() == __builtin_strlen(a)), "as a whole");
    vp_assert((vp_at(a, 0) == '-') & ((vp_at(a, 1) == '-') == lng) & !tok_is(a, "--", 2) & !tok_is(a, "-h", 2) & !tok_is(a, "--help", 6), "by the form it has");
    // proved for process_long_argument and process_short_argument: 0, or 1 where there is a next argument
    int used = vp_bool() ? 1 : 0;
    vp_assume((uint64_t)i + used < the_argc);
    next = next + 1 + used;
    return used;
}
extern "C" int stub_long(ArgParse *, int argc, const char **argv, ParseResult &, int i, CStringView current) { return processed(argc, argv, i, current, true); }
extern "C" int stub_short(ArgParse *, int argc, const char **argv, ParseResult &, int i, CStringView current) { return processed(argc, argv, i, current, false); }
extern "C" void stub_help(ArgParse *) {
    vp_assert(next < the_argc && (tok_is(the_argv[next], "-h", 2) | tok_is(the_argv[next], "--help", 6)), "help is shown when it is asked for");
    vp_assume(false);
}
extern "C" void stub_exit(int) {
    vp_assert(next < the_argc && ((vp_at(the_argv[next], 0) == 0) | ((vp_at(the_argv[next], 0) != '-') & !the_parser->store_posargs)), "the program ends only on an argument without meaning");
    vp_assume(false);
}
extern "C" void stub_push(P::Vector<P::CString> *v, P::CString &&s) {
    const bool more = v == &the_parser->extra_args;
    vp_assert(more | (v == &the_parser->posargs), "arguments are collected");
    uint64_t at = more ? next + 1 + extras : next;
    vp_assert(at < the_argc, "arguments exist");
    const char *a = the_argv[at];
    uint64_t n = __builtin_strlen(a);
    vp_bytes_wf(&s.bytes);
    vp_assert((s.size() == n) & vp_range_eq(s.data(), a, n), "the text of the next argument is collected");
    if(more) {
        vp_assert(tok_is(the_argv[next], "--", 2), "what follows -- is collected separately");
        ++extras;
    } else {
        vp_assert(extras == 0, "before any --");
        vp_assert((vp_at(a, 0) != '-') & (vp_at(a, 0) != 0) & the_parser->store_posargs, "only positional arguments are collected");
        ++next;
    }
    ++v->num_entries;
}
// contracts proved for C12 and C13
extern "C" bool stub_view_eq(const CStringView *self, const char *lit) {
    uint64_t n = __builtin_strlen(lit);
    return (self->size() == n) & starts(self->data(), lit, n);
}
extern "C" bool stub_starts_with(const CStringView *self, const char *lit) {
    uint64_t n = __builtin_strlen(lit);
    return (n <= self->size()) & starts(self->data(), lit, n);
}
extern "C" void stub_cstring(P::CString *self, const CStringView &v) {
    vp_assert(!vp_hasbyte(v.data(), v.size(), 0), "a text without NUL");
    vp_cstrobj(&self->bytes);
    vp_assume((self->size() == v.size()) & vp_range_eq(self->data(), v.data(), v.size()));
}
extern "C" void stub_cstring_p(P::CString *self, const char *p, uint64_t n) {
    vp_assert(n == (uint64_t)-1, "a C string");
    stub_cstring(self, CStringView(p));
}
alignas(P::Optional<P::ParseOutput>) static char out_storage[sizeof(P::Optional<P::ParseOutput>)];
void spec_args_parse() {
    ArgParse *ap = the_parser = world();
    ap->posargs.num_entries = ap->extra_args.num_entries = 0;
    the_argc = vp_u32();
    vp_assume(the_argc >= 1 && the_argc < 0x7fffffff);
    the_argv = (const char **)vp_argv(the_argc);
    next = 1;
    extras = 0;
    auto *r = new(out_storage) P::Optional<P::ParseOutput>(ap->parse_args((int)the_argc, the_argv));
    vp_assert((bool)*r, "a result is returned");
    ParseResult &p = r->value().pr;
    if(extras == 0)
        vp_assert(next == the_argc || (next + 1 == the_argc && tok_is(the_argv[next], "--", 2)), "every argument is looked at once, in order");
    else
        vp_assert(next + 1 + extras == the_argc, "all arguments after -- are collected");
    vp_assert(p.extra_args.size() == extras && ap->extra_args.size() == 0 && ap->posargs.size() == 0, "the result has what was collected");
}
// ---- argument_matched: what an option does with its value
static P::ArgValue *existing;
static const char *number_text;
static int64_t number;
static bool number_bad, number_range;
extern "C" P::ArgValue *stub_find_value(ParseResult *, CStringView) { return existing; }
extern "C" int64_t stub_strtol(const char *s, char **end, int base) {
    vp_assert(base == 10, "decimal");
    uint64_t n = next_size, k = vp_u64();
    vp_assert(vp_range_eq(s, next_tok, n) & (vp_at(s, n) == 0), "the value is converted");
    vp_assume(k <= n);
    if(number_range) {
        errno = ERANGE;
        k = n;
    }
    number_bad = (k == 0) | (k != n);
    *end = (char *)s + k;
    return number;
}
static int the_errno;
extern "C" int *__errno_location() noexcept { return &the_errno; }
extern "C" char *strerror(int) noexcept { return (char *)"text"; }
static void matched_with(P::ArgumentType type, P::ArgumentAction action) {
    may_exit = may_help = false;
    existing = nullptr;
    Argument a;
    a.type = type;
    a.aaction = action;
    const bool mn = vp_bool(), mx = vp_bool();
    const int64_t lo = vp_i64(), hi = vp_i64();
    number = vp_i64();
    number_range = vp_bool();
    number_bad = false;
    if(type == P::ArgumentType::Integer) {
        if(mn)
            a.minval = lo;
        if(mx)
            a.maxval = hi;
    }
    ArgParse *ap = (ArgParse *)storage;
    *(Argument **)&ap->arguments.buffer = &a;
    ap->arguments.buf_capacity = ap->arguments.num_entries = 1;
    next_size = vp_u64();
    next_tok = vp_cstr(next_size);
    const CStringView value(next_tok, next_size);
    const bool append = action == P::ArgumentAction::AppendArray;
    bool had = vp_bool();
    ParseResult pr;
    P::ArgValue old{P::CString("n"), P::ArgumentValue(false)};
    if(had) {
        // a value that is there already, from a default or from an earlier argument
        switch(type) {
        case P::ArgumentType::String: old.v = P::CString("old"); break;
        case P::ArgumentType::Integer: old.v = int64_t{7}; break;
        case P::ArgumentType::Boolean: old.v = vp_bool(); break;
        case P::ArgumentType::StringArray: {
            P::Vector<P::CString> v;
            v.reserve(4); // growing is decided for C07
            v.emplace_back("old");
            old.v = static_cast<P::Vector<P::CString> &&>(v);
            break;
        }
        }
        existing = &old;
    }
    bool thrown = false;
    try {
        ap->argument_matched(pr, 0, value);
    } catch(...) {
        thrown = true;
    }
    bool bad = false;
    if(action == P::ArgumentAction::Store) {
        if(type == P::ArgumentType::Integer)
            bad = number_range | number_bad | (mn & (number < lo)) | (mx & (number > hi));
        if(type == P::ArgumentType::Boolean)
            bad = true;
    }
    vp_assert(thrown == bad, "exactly the values without meaning are reported");
    if(thrown)
        return;
    vp_assert(pr.values.size() == (had ? 0 : 1), "there is one value afterwards");
    P::ArgumentValue &v = had ? old.v : pr.values[0].v;
    switch(action) {
    case P::ArgumentAction::StoreTrue: vp_assert(v.get_if<bool>() && *v.get_if<bool>(), "true is stored"); return;
    case P::ArgumentAction::StoreFalse: vp_assert(v.get_if<bool>() && !*v.get_if<bool>(), "false is stored"); return;
    default: break;
    }
    switch(type) {
    case P::ArgumentType::String: {
        auto *s = v.get_if<P::CString>();
        vp_assert(s && (s->size() == next_size) & vp_range_eq(s->data(), next_tok, next_size), "the text is stored");
        break;
    }
    case P::ArgumentType::Integer: vp_assert(v.get_if<int64_t>() && *v.get_if<int64_t>() == number, "the number is stored"); break;
    case P::ArgumentType::StringArray: {
        auto *s = v.get_if<P::Vector<P::CString>>();
        vp_assert(s != nullptr, "an array is stored");
        uint64_t k = 0;
        if(append && had)
            k = 1;
        vp_assert(s->size() == k + 1, "with one more entry");
        const P::CString &e = (*s)[k];
        vp_assert((e.size() == next_size) & vp_range_eq(e.data(), next_tok, next_size), "which is the text");
        if(k)
            vp_assert((*s)[0].size() == 3, "behind the earlier ones");
        break;
    }
    default: break;
    }
}
void spec_args_matched_text() { matched_with(P::ArgumentType::String, P::ArgumentAction::Store); }
void spec_args_matched_number() { matched_with(P::ArgumentType::Integer, P::ArgumentAction::Store); }
void spec_args_matched_bool() { matched_with(P::ArgumentType::Boolean, P::ArgumentAction::Store); }
void spec_args_matched_true() { matched_with(P::ArgumentType::Boolean, P::ArgumentAction::StoreTrue); }
void spec_args_matched_false() { matched_with(P::ArgumentType::Boolean, P::ArgumentAction::StoreFalse); }
void spec_args_matched_array() { matched_with(P::ArgumentType::StringArray, P::ArgumentAction::Store); }
void spec_args_matched_append() { matched_with(P::ArgumentType::StringArray, P::ArgumentAction::AppendArray); }
