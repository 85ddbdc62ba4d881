// Reads programs from standard input in the line format genchk.Encode writes and runs the
// repository's Go generator on each of them, as the Thrift compiler does.
#include "t_generator.h"
using namespace std;

t_type* g_type_void = new t_base_type("void", t_base_type::TYPE_VOID);
t_type* g_type_string = new t_base_type("string", t_base_type::TYPE_STRING);
t_type* g_type_binary = new t_base_type("string", t_base_type::TYPE_STRING);
t_type* g_type_slist = new t_base_type("string", t_base_type::TYPE_STRING);
t_type* g_type_bool = new t_base_type("bool", t_base_type::TYPE_BOOL);
t_type* g_type_byte = new t_base_type("byte", t_base_type::TYPE_BYTE);
t_type* g_type_i16 = new t_base_type("i16", t_base_type::TYPE_I16);
t_type* g_type_i32 = new t_base_type("i32", t_base_type::TYPE_I32);
t_type* g_type_i64 = new t_base_type("i64", t_base_type::TYPE_I64);
t_type* g_type_double = new t_base_type("double", t_base_type::TYPE_DOUBLE);

static vector<t_program*> programs;
static map<string, map<string, t_type*> > named; // program name -> types
static map<string, map<string, t_service*> > services;

static void die(const string& s) {
    cerr << "schema: " << s << endl;
    exit(4);
}
static string word() {
    string s;
    if (!(cin >> s)) {
        die("unexpected end");
    }
    return s;
}
static long long num() { return strtoll(word().c_str(), NULL, 10); }
static string text() { // h<hex>
    string s = word(), r;
    if (s[0] != 'h') {
        die("text expected, not " + s);
    }
    for (size_t i = 1; i + 1 < s.size(); i += 2) {
        r += (char)strtol(s.substr(i, 2).c_str(), NULL, 16);
    }
    return r;
}
template <class T> static void doc(T* d) {
    if (num()) {
        d->set_doc(text());
    }
}
static t_type* type() {
    string s = word();
    if (s == "list") return new t_list(type());
    if (s == "set") return new t_set(type());
    if (s == "map") {
        t_type* k = type();
        t_type* v = type();
        return new t_map(k, v);
    }
    if (s == "named") {
        string p = word(), n = word();
        t_type* t = named[p][n];
        if (!t) die("unknown type " + p + "." + n);
        return t;
    }
    if (s == "void") return g_type_void;
    if (s == "string") return g_type_string;
    if (s == "binary") return g_type_binary;
    if (s == "bool") return g_type_bool;
    if (s == "byte") return g_type_byte;
    if (s == "i16") return g_type_i16;
    if (s == "i32") return g_type_i32;
    if (s == "i64") return g_type_i64;
    if (s == "double") return g_type_double;
    die("type " + s);
    return NULL;
}
static t_const_value* value() {
    string s = word();
    t_const_value* v = new t_const_value();
    if (s == "int") {
        v->set_integer(num());
    } else if (s == "double") {
        v->set_double(strtod(word().c_str(), NULL));
    } else if (s == "text") {
        v->set_string(text());
    } else if (s == "ident") { // program, enum, value name
        string p = word(), e = word(), n = word();
        v->set_identifier(e + "." + n);
        v->set_enum((t_enum*)named[p][e]);
    } else if (s == "list") {
        v->set_list();
        for (long long n = num(); n > 0; n--) v->add_list(value());
    } else if (s == "map") {
        v->set_map();
        for (long long n = num(); n > 0; n--) {
            t_const_value* k = value();
            v->add_map(k, value());
        }
    } else {
        die("value " + s);
    }
    return v;
}
static void fields(t_struct* st) {
    for (long long n = num(); n > 0; n--) {
        int key = num(), req = num();
        string name = word();
        t_type* ty = type();
        t_field* f = new t_field(ty, name, key);
        f->set_req(req == 0 ? t_field::T_REQUIRED : req == 1 ? t_field::T_OPTIONAL : t_field::T_OPT_IN_REQ_OUT);
        if (num()) f->set_value(value());
        doc(f);
        if (!st->append(f)) die("two fields with one id");
    }
}

int main(int argc, char** argv) {
    ((t_base_type*)g_type_binary)->set_binary(true);
    ((t_base_type*)g_type_slist)->set_string_list(true);
    if (argc < 2) die("usage: gocompiler OUTDIR");
    t_program* p = NULL;
    string w;
    while (cin >> w) {
        if (w == "program") {
            string name = word(), ns = word();
            p = new t_program(name + ".thrift", name);
            if (ns != "-") p->set_namespace("go", ns);
            p->set_out_path(argv[1], true);
            programs.push_back(p);
        } else if (w == "include") {
            string name = word();
            for (size_t i = 0; i < programs.size(); i++) {
                if (programs[i]->get_name() == name) p->add_include(programs[i]);
            }
        } else if (w == "enum") {
            t_enum* e = new t_enum(p);
            e->set_name(word());
            for (long long n = num(); n > 0; n--) {
                string name = word();
                int has = num(), v = num();
                t_enum_value* ev = has ? new t_enum_value(name, v) : new t_enum_value(name);
                e->append(ev);
            }
            doc(e);
            p->add_enum(e);
            named[p->get_name()][e->get_name()] = e;
        } else if (w == "typedef") {
            string name = word();
            t_typedef* t = new t_typedef(p, type(), name);
            doc(t);
            p->add_typedef(t);
            named[p->get_name()][name] = t;
        } else if (w == "struct" || w == "exception" || w == "union") {
            t_struct* s = new t_struct(p);
            s->set_name(word());
            fields(s);
            doc(s);
            if (w == "union") s->set_union(true);
            if (w == "exception") {
                s->set_xception(true);
                p->add_xception(s);
            } else {
                p->add_struct(s);
            }
            named[p->get_name()][s->get_name()] = s;
        } else if (w == "const") {
            string name = word();
            t_type* ty = type();
            t_const* c = new t_const(ty, name, value());
            doc(c);
            p->add_const(c);
        } else if (w == "service") {
            t_service* s = new t_service(p);
            s->set_name(word());
            string ep = word();
            if (ep != "-") {
                string en = word();
                if (!services[ep][en]) die("unknown service " + en);
                s->set_extends(services[ep][en]);
            }
            for (long long n = num(); n > 0; n--) {
                string name = word();
                int oneway = num();
                t_type* ret = type();
                t_struct* args = new t_struct(p, name + "_args");
                fields(args);
                t_struct* xs = new t_struct(p, name + "_xceptions");
                fields(xs);
                t_function* f = new t_function(ret, name, args, xs, oneway);
                doc(f);
                s->add_function(f);
            }
            doc(s);
            p->add_service(s);
            services[p->get_name()][s->get_name()] = s;
        } else {
            die("unknown declaration " + w);
        }
    }
    try {
        map<string, string> opts;
        for (size_t i = 0; i < programs.size(); i++) {
            t_generator* g = t_generator_factory::instance()->get_generator(programs[i], opts, "");
            g->generate_program();
            delete g;
        }
    } catch (const string& s) {
        cerr << "generator: " << s << endl;
        return 5;
    } catch (const char* s) {
        cerr << "generator: " << s << endl;
        return 5;
    }
    return 0;
}
