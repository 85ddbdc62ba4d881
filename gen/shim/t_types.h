// The part of the Thrift 0.9 compiler's parse tree that a generator sees, written for this
// harness (the compiler itself is not in the repository): class and method names, and what
// the methods return, are Thrift's.
#ifndef VERIF_T_TYPES_H
#define VERIF_T_TYPES_H
#include <stdint.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

class t_program;
class t_struct;

class t_doc {
public:
    t_doc() : has_doc_(false) {}
    virtual ~t_doc() {}
    void set_doc(const std::string& doc) { doc_ = doc; has_doc_ = true; }
    const std::string& get_doc() const { return doc_; }
    bool has_doc() const { return has_doc_; }
private:
    std::string doc_;
    bool has_doc_;
};

class t_type : public t_doc {
public:
    virtual ~t_type() {}
    virtual void set_name(const std::string& name) { name_ = name; }
    virtual const std::string& get_name() const { return name_; }
    virtual bool is_void() const { return false; }
    virtual bool is_base_type() const { return false; }
    virtual bool is_string() const { return false; }
    virtual bool is_bool() const { return false; }
    virtual bool is_typedef() const { return false; }
    virtual bool is_enum() const { return false; }
    virtual bool is_struct() const { return false; }
    virtual bool is_xception() const { return false; }
    virtual bool is_container() const { return false; }
    virtual bool is_list() const { return false; }
    virtual bool is_set() const { return false; }
    virtual bool is_map() const { return false; }
    virtual bool is_service() const { return false; }
    t_program* get_program() { return program_; }
    const t_program* get_program() const { return program_; }
    t_type* get_true_type();
    std::map<std::string, std::string> annotations_;
protected:
    t_type() : program_(NULL) {}
    t_type(t_program* program) : program_(program) {}
    t_type(t_program* program, std::string name) : program_(program), name_(name) {}
    t_type(std::string name) : program_(NULL), name_(name) {}
    t_program* program_;
    std::string name_;
};

class t_base_type : public t_type {
public:
    enum t_base { TYPE_VOID, TYPE_STRING, TYPE_BOOL, TYPE_BYTE, TYPE_I16, TYPE_I32, TYPE_I64, TYPE_DOUBLE };
    t_base_type(std::string name, t_base base)
        : t_type(name), base_(base), string_list_(false), binary_(false), string_enum_(false) {}
    t_base get_base() const { return base_; }
    bool is_void() const { return base_ == TYPE_VOID; }
    bool is_string() const { return base_ == TYPE_STRING; }
    bool is_bool() const { return base_ == TYPE_BOOL; }
    void set_string_list(bool val) { string_list_ = val; }
    bool is_string_list() const { return base_ == TYPE_STRING && string_list_; }
    void set_binary(bool val) { binary_ = val; }
    bool is_binary() const { return base_ == TYPE_STRING && binary_; }
    void set_string_enum(bool val) { string_enum_ = val; }
    bool is_string_enum() const { return base_ == TYPE_STRING && string_enum_; }
    bool is_base_type() const { return true; }
    static std::string t_base_name(t_base tbase) {
        switch (tbase) {
        case TYPE_VOID: return "void";
        case TYPE_STRING: return "string";
        case TYPE_BOOL: return "bool";
        case TYPE_BYTE: return "byte";
        case TYPE_I16: return "i16";
        case TYPE_I32: return "i32";
        case TYPE_I64: return "i64";
        case TYPE_DOUBLE: return "double";
        default: return "(unknown)";
        }
    }
private:
    t_base base_;
    bool string_list_, binary_, string_enum_;
};

class t_typedef : public t_type {
public:
    t_typedef(t_program* program, t_type* type, std::string symbolic)
        : t_type(program, symbolic), type_(type), symbolic_(symbolic) {}
    t_type* get_type() const { return type_; }
    const std::string& get_symbolic() const { return symbolic_; }
    bool is_typedef() const { return true; }
private:
    t_type* type_;
    std::string symbolic_;
};

inline t_type* t_type::get_true_type() {
    t_type* type = this;
    while (type->is_typedef()) {
        type = ((t_typedef*)type)->get_type();
    }
    return type;
}

class t_enum_value : public t_doc {
public:
    t_enum_value(std::string name) : name_(name), has_value_(false), value_(0) {}
    t_enum_value(std::string name, int value) : name_(name), has_value_(true), value_(value) {}
    const std::string& get_name() const { return name_; }
    bool has_value() const { return has_value_; }
    int get_value() const { return value_; }
    void set_value(int val) { has_value_ = true; value_ = val; }
    std::map<std::string, std::string> annotations_;
private:
    std::string name_;
    bool has_value_;
    int value_;
};

class t_enum : public t_type {
public:
    t_enum(t_program* program) : t_type(program) {}
    void append(t_enum_value* constant) { constants_.push_back(constant); }
    const std::vector<t_enum_value*>& get_constants() { return constants_; }
    const std::vector<t_enum_value*>& get_constants() const { return constants_; }
    t_enum_value* get_constant_by_name(const std::string name) {
        for (size_t i = 0; i < constants_.size(); ++i) {
            if (constants_[i]->get_name() == name) {
                return constants_[i];
            }
        }
        return NULL;
    }
    t_enum_value* get_constant_by_value(int64_t value) {
        int64_t v = -1;
        for (size_t i = 0; i < constants_.size(); ++i) {
            v = constants_[i]->has_value() ? constants_[i]->get_value() : v + 1;
            if (v == value) {
                return constants_[i];
            }
        }
        return NULL;
    }
    bool is_enum() const { return true; }
private:
    std::vector<t_enum_value*> constants_;
};

class t_const_value {
public:
    enum t_const_value_type { CV_INTEGER, CV_DOUBLE, CV_STRING, CV_MAP, CV_LIST, CV_IDENTIFIER };
    t_const_value() : intVal_(0), doubleVal_(0), enum_(NULL), valType_(CV_INTEGER) {}
    t_const_value(int64_t val) : intVal_(0), doubleVal_(0), enum_(NULL) { set_integer(val); }
    t_const_value(std::string val) : intVal_(0), doubleVal_(0), enum_(NULL) { set_string(val); }
    void set_string(std::string val) { valType_ = CV_STRING; stringVal_ = val; }
    std::string get_string() const { return stringVal_; }
    void set_integer(int64_t val) { valType_ = CV_INTEGER; intVal_ = val; }
    int64_t get_integer() const {
        if (valType_ == CV_IDENTIFIER) {
            if (enum_ == NULL) {
                throw "have identifier \"" + get_identifier() + "\", but unset enum on line!";
            }
            std::string identifier = get_identifier();
            std::string::size_type dot = identifier.rfind('.');
            if (dot != std::string::npos) {
                identifier = identifier.substr(dot + 1);
            }
            const std::vector<t_enum_value*>& cs = enum_->get_constants();
            int64_t v = -1;
            for (size_t i = 0; i < cs.size(); ++i) {
                v = cs[i]->has_value() ? cs[i]->get_value() : v + 1;
                if (cs[i]->get_name() == identifier) {
                    return v;
                }
            }
            throw "Unable to find enum value \"" + identifier + "\" in enum \"" + enum_->get_name() + "\"";
        }
        return intVal_;
    }
    void set_double(double val) { valType_ = CV_DOUBLE; doubleVal_ = val; }
    double get_double() const { return doubleVal_; } // not set for an integer
    void set_map() { valType_ = CV_MAP; }
    void add_map(t_const_value* key, t_const_value* val) { mapVal_[key] = val; }
    const std::map<t_const_value*, t_const_value*>& get_map() const { return mapVal_; }
    void set_list() { valType_ = CV_LIST; }
    void add_list(t_const_value* val) { listVal_.push_back(val); }
    const std::vector<t_const_value*>& get_list() const { return listVal_; }
    void set_identifier(std::string val) { valType_ = CV_IDENTIFIER; identifierVal_ = val; }
    std::string get_identifier() const { return identifierVal_; }
    std::string get_identifier_name() const {
        std::string s = get_identifier();
        std::string::size_type dot = s.rfind('.');
        return dot == std::string::npos ? s : s.substr(dot + 1);
    }
    void set_enum(t_enum* tenum) { enum_ = tenum; }
    t_const_value_type get_type() const { return valType_; }
private:
    std::map<t_const_value*, t_const_value*> mapVal_;
    std::vector<t_const_value*> listVal_;
    std::string stringVal_;
    int64_t intVal_;
    double doubleVal_;
    std::string identifierVal_;
    t_enum* enum_;
    t_const_value_type valType_;
};

class t_const : public t_doc {
public:
    t_const(t_type* type, std::string name, t_const_value* value) : type_(type), name_(name), value_(value) {}
    t_type* get_type() const { return type_; }
    std::string get_name() const { return name_; }
    t_const_value* get_value() const { return value_; }
private:
    t_type* type_;
    std::string name_;
    t_const_value* value_;
};

class t_field : public t_doc {
public:
    enum e_req { T_REQUIRED, T_OPTIONAL, T_OPT_IN_REQ_OUT };
    t_field(t_type* type, std::string name)
        : type_(type), name_(name), key_(0), req_(T_OPT_IN_REQ_OUT), value_(NULL), xsd_optional_(false), xsd_nillable_(false) {}
    t_field(t_type* type, std::string name, int32_t key)
        : type_(type), name_(name), key_(key), req_(T_OPT_IN_REQ_OUT), value_(NULL), xsd_optional_(false), xsd_nillable_(false) {}
    ~t_field() {}
    t_type* get_type() { return type_; }
    const t_type* get_type() const { return type_; }
    const std::string& get_name() const { return name_; }
    int32_t get_key() const { return key_; }
    void set_req(e_req req) { req_ = req; }
    e_req get_req() const { return req_; }
    void set_value(t_const_value* value) { value_ = value; }
    t_const_value* get_value() { return value_; }
    const t_const_value* get_value() const { return value_; }
    struct key_compare {
        bool operator()(t_field const* const& a, t_field const* const& b) { return a->get_key() < b->get_key(); }
    };
    std::map<std::string, std::string> annotations_;
private:
    t_type* type_;
    std::string name_;
    int32_t key_;
    e_req req_;
    t_const_value* value_;
    bool xsd_optional_, xsd_nillable_;
};

class t_struct : public t_type {
public:
    typedef std::vector<t_field*> members_type;
    t_struct(t_program* program)
        : t_type(program), is_xception_(false), is_union_(false) {}
    t_struct(t_program* program, const std::string& name)
        : t_type(program, name), is_xception_(false), is_union_(false) {}
    void set_xception(bool is_xception) { is_xception_ = is_xception; }
    void set_union(bool is_union) { is_union_ = is_union; }
    bool append(t_field* elem) {
        members_.push_back(elem);
        members_type::iterator lo = std::lower_bound(sorted_.begin(), sorted_.end(), elem, t_field::key_compare());
        if (lo != sorted_.end() && (*lo)->get_key() == elem->get_key()) {
            return false;
        }
        sorted_.insert(lo, elem);
        return true;
    }
    const members_type& get_members() { return members_; }
    const members_type& get_members() const { return members_; }
    const members_type& get_sorted_members() { return sorted_; }
    const members_type& get_sorted_members() const { return sorted_; }
    bool is_struct() const { return !is_xception_; }
    bool is_xception() const { return is_xception_; }
    bool is_union() const { return is_union_; }
    t_field* get_field_by_name(std::string name) {
        for (size_t i = 0; i < members_.size(); ++i) {
            if (members_[i]->get_name() == name) {
                return members_[i];
            }
        }
        return NULL;
    }
private:
    members_type members_, sorted_;
    bool is_xception_, is_union_;
};

class t_container : public t_type {
public:
    t_container() : cpp_name_(), has_cpp_name_(false) {}
    virtual ~t_container() {}
    void set_cpp_name(std::string n) { cpp_name_ = n; has_cpp_name_ = true; }
    bool has_cpp_name() { return has_cpp_name_; }
    std::string get_cpp_name() { return cpp_name_; }
    bool is_container() const { return true; }
private:
    std::string cpp_name_;
    bool has_cpp_name_;
};

class t_map : public t_container {
public:
    t_map(t_type* key_type, t_type* val_type) : key_type_(key_type), val_type_(val_type) {}
    t_type* get_key_type() const { return key_type_; }
    t_type* get_val_type() const { return val_type_; }
    bool is_map() const { return true; }
private:
    t_type *key_type_, *val_type_;
};

class t_list : public t_container {
public:
    t_list(t_type* elem_type) : elem_type_(elem_type) {}
    t_type* get_elem_type() const { return elem_type_; }
    bool is_list() const { return true; }
private:
    t_type* elem_type_;
};

class t_set : public t_container {
public:
    t_set(t_type* elem_type) : elem_type_(elem_type) {}
    t_type* get_elem_type() const { return elem_type_; }
    bool is_set() const { return true; }
private:
    t_type* elem_type_;
};

class t_function : public t_doc {
public:
    t_function(t_type* returntype, std::string name, t_struct* arglist, bool oneway = false)
        : returntype_(returntype), name_(name), arglist_(arglist), oneway_(oneway) { xceptions_ = new t_struct(NULL); }
    t_function(t_type* returntype, std::string name, t_struct* arglist, t_struct* xceptions, bool oneway = false)
        : returntype_(returntype), name_(name), arglist_(arglist), xceptions_(xceptions), oneway_(oneway) {}
    ~t_function() {}
    t_type* get_returntype() const { return returntype_; }
    const std::string& get_name() const { return name_; }
    t_struct* get_arglist() const { return arglist_; }
    t_struct* get_xceptions() const { return xceptions_; }
    bool is_oneway() const { return oneway_; }
    std::map<std::string, std::string> annotations_;
private:
    t_type* returntype_;
    std::string name_;
    t_struct* arglist_;
    t_struct* xceptions_;
    bool oneway_;
};

class t_service : public t_type {
public:
    t_service(t_program* program) : t_type(program), extends_(NULL) {}
    bool is_service() const { return true; }
    void set_extends(t_service* extends) { extends_ = extends; }
    void add_function(t_function* func) { functions_.push_back(func); }
    const std::vector<t_function*>& get_functions() const { return functions_; }
    t_service* get_extends() { return extends_; }
    const t_service* get_extends() const { return extends_; }
private:
    std::vector<t_function*> functions_;
    t_service* extends_;
};

class t_program : public t_doc {
public:
    t_program(std::string path, std::string name) : path_(path), name_(name), out_path_("./"), out_path_is_absolute_(false) {}
    const std::string& get_path() const { return path_; }
    const std::string& get_name() const { return name_; }
    const std::string& get_out_path() const { return out_path_; }
    bool is_out_path_absolute() const { return out_path_is_absolute_; }
    void set_out_path(std::string out_path, bool absolute) {
        out_path_ = out_path;
        out_path_is_absolute_ = absolute;
        if (!out_path_.empty() && out_path_[out_path_.size() - 1] != '/') {
            out_path_ += '/';
        }
    }
    const std::string& get_include_prefix() const { return include_prefix_; }
    void set_include_prefix(std::string p) { include_prefix_ = p; }
    const std::vector<t_typedef*>& get_typedefs() const { return typedefs_; }
    const std::vector<t_enum*>& get_enums() const { return enums_; }
    const std::vector<t_const*>& get_consts() const { return consts_; }
    const std::vector<t_struct*>& get_structs() const { return structs_; }
    const std::vector<t_struct*>& get_xceptions() const { return xceptions_; }
    const std::vector<t_struct*>& get_objects() const { return objects_; }
    const std::vector<t_service*>& get_services() const { return services_; }
    void add_typedef(t_typedef* td) { typedefs_.push_back(td); }
    void add_enum(t_enum* te) { enums_.push_back(te); }
    void add_const(t_const* tc) { consts_.push_back(tc); }
    void add_struct(t_struct* ts) { objects_.push_back(ts); structs_.push_back(ts); }
    void add_xception(t_struct* tx) { objects_.push_back(tx); xceptions_.push_back(tx); }
    void add_service(t_service* ts) { services_.push_back(ts); }
    void add_include(t_program* p) { includes_.push_back(p); }
    std::vector<t_program*>& get_includes() { return includes_; }
    const std::vector<t_program*>& get_includes() const { return includes_; }
    void set_namespace(std::string language, std::string name_space) { namespaces_[language] = name_space; }
    std::string get_namespace(std::string language) const {
        std::map<std::string, std::string>::const_iterator iter;
        if ((iter = namespaces_.find(language)) != namespaces_.end() || (iter = namespaces_.find("*")) != namespaces_.end()) {
            return iter->second;
        }
        return std::string();
    }
    const std::map<std::string, std::string>& get_all_namespaces() { return namespaces_; }
private:
    std::string path_, name_, out_path_;
    bool out_path_is_absolute_;
    std::string include_prefix_;
    std::vector<t_program*> includes_;
    std::vector<t_typedef*> typedefs_;
    std::vector<t_enum*> enums_;
    std::vector<t_const*> consts_;
    std::vector<t_struct*> objects_, structs_, xceptions_;
    std::vector<t_service*> services_;
    std::map<std::string, std::string> namespaces_;
};

extern t_type *g_type_void, *g_type_string, *g_type_binary, *g_type_slist, *g_type_bool, *g_type_byte,
    *g_type_i16, *g_type_i32, *g_type_i64, *g_type_double;

#endif
