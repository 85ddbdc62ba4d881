#ifndef T_GENERATOR_H
#define T_GENERATOR_H
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include "t_types.h"

class t_generator {
public:
    t_generator(t_program* program) : program_(program), out_dir_base_("gen-go"), tmp_(0), indent_(0) {
        program_name_ = get_program_name(program);
        escape_['\n'] = "\\n";
        escape_['\r'] = "\\r";
        escape_['\t'] = "\\t";
        escape_['"'] = "\\\"";
        escape_['\\'] = "\\\\";
    }
    virtual ~t_generator() {}

    virtual void generate_program() {
        init_generator();
        const std::vector<t_enum*>& enums = program_->get_enums();
        for (size_t i = 0; i < enums.size(); ++i) {
            generate_enum(enums[i]);
        }
        const std::vector<t_typedef*>& typedefs = program_->get_typedefs();
        for (size_t i = 0; i < typedefs.size(); ++i) {
            generate_typedef(typedefs[i]);
        }
        const std::vector<t_struct*>& objects = program_->get_objects();
        for (size_t i = 0; i < objects.size(); ++i) {
            if (objects[i]->is_xception()) {
                generate_xception(objects[i]);
            } else {
                generate_struct(objects[i]);
            }
        }
        generate_consts(program_->get_consts());
        const std::vector<t_service*>& services = program_->get_services();
        for (size_t i = 0; i < services.size(); ++i) {
            service_name_ = get_service_name(services[i]);
            generate_service(services[i]);
        }
        close_generator();
    }

    const t_program* get_program() const { return program_; }
    void generate_docstring_comment(std::ofstream& out, const std::string& comment_start,
                                    const std::string& line_prefix, const std::string& contents,
                                    const std::string& comment_end) {
        if (comment_start != "") {
            indent(out) << comment_start;
        }
        std::stringstream docs(contents, std::ios_base::in);
        while (!docs.eof()) {
            char line[1024];
            docs.getline(line, 1024);
            if (strlen(line) == 0 && line_prefix == "" && !docs.eof()) {
                out << std::endl;
            } else if (strlen(line) > 0 || !docs.eof()) {
                indent(out) << line_prefix << line << std::endl;
            }
        }
        if (comment_end != "") {
            indent(out) << comment_end;
        }
    }
    virtual std::string escape_string(const std::string& in) const {
        std::string result = "";
        for (std::string::const_iterator it = in.begin(); it < in.end(); it++) {
            std::map<char, std::string>::const_iterator res = escape_.find(*it);
            if (res != escape_.end()) {
                result.append(res->second);
            } else {
                result.push_back(*it);
            }
        }
        return result;
    }
    std::string get_escaped_string(t_const_value* constval) { return escape_string(constval->get_string()); }

protected:
    virtual void init_generator() {}
    virtual void close_generator() {}
    virtual void generate_consts(std::vector<t_const*> consts) {
        for (size_t i = 0; i < consts.size(); ++i) {
            generate_const(consts[i]);
        }
    }
    virtual void generate_typedef(t_typedef* ttypedef) = 0;
    virtual void generate_enum(t_enum* tenum) = 0;
    virtual void generate_const(t_const* tconst) {}
    virtual void generate_struct(t_struct* tstruct) = 0;
    virtual void generate_service(t_service* tservice) = 0;
    virtual void generate_xception(t_struct* txception) { generate_struct(txception); }

    virtual std::string get_program_name(t_program* tprogram) { return tprogram->get_name(); }
    virtual std::string get_service_name(t_service* tservice) { return tservice->get_name(); }
    virtual std::string get_out_dir() const {
        if (program_->is_out_path_absolute()) {
            return program_->get_out_path() + "/";
        }
        return program_->get_out_path() + out_dir_base_ + "/";
    }
    std::string tmp(std::string name) {
        std::ostringstream out;
        out << name << tmp_++;
        return out.str();
    }
    void indent_up() { ++indent_; }
    void indent_down() { --indent_; }
    std::string indent() {
        std::string ind = "";
        for (int i = 0; i < indent_; ++i) {
            ind += "  ";
        }
        return ind;
    }
    std::ostream& indent(std::ostream& os) { return os << indent(); }
    std::string capitalize(std::string in) {
        in[0] = toupper(in[0]);
        return in;
    }
    std::string decapitalize(std::string in) {
        in[0] = tolower(in[0]);
        return in;
    }
    std::string lowercase(std::string in) {
        for (size_t i = 0; i < in.size(); ++i) {
            in[i] = tolower(in[i]);
        }
        return in;
    }
    std::string underscore(std::string in) {
        in[0] = tolower(in[0]);
        for (size_t i = 1; i < in.size(); ++i) {
            if (isupper(in[i])) {
                in[i] = tolower(in[i]);
                in.insert(i, "_");
            }
        }
        return in;
    }
    std::string camelcase(std::string in) {
        std::ostringstream out;
        bool underscore = false;
        for (size_t i = 0; i < in.size(); i++) {
            if (in[i] == '_') {
                underscore = true;
                continue;
            }
            out << (char)(underscore ? toupper(in[i]) : in[i]);
            underscore = false;
        }
        return out.str();
    }
public:
    static t_type* get_true_type(t_type* type) { return type->get_true_type(); }

protected:
    t_program* program_;
    std::string program_name_;
    std::string service_name_;
    std::string out_dir_base_;
    std::map<char, std::string> escape_;

private:
    int tmp_;
    int indent_;
};

class t_generator_factory {
public:
    t_generator_factory(const std::string& short_name, const std::string& long_name, const std::string& documentation)
        : short_name_(short_name), long_name_(long_name), documentation_(documentation) { instance() = this; }
    virtual ~t_generator_factory() {}
    virtual t_generator* get_generator(t_program* program, const std::map<std::string, std::string>& parsed_options,
                                       const std::string& option_string) = 0;
    static t_generator_factory*& instance() {
        static t_generator_factory* f = NULL;
        return f;
    }
private:
    std::string short_name_, long_name_, documentation_;
};

template <typename generator>
class t_generator_factory_impl : public t_generator_factory {
public:
    t_generator_factory_impl(const std::string& s, const std::string& l, const std::string& d) : t_generator_factory(s, l, d) {}
    virtual t_generator* get_generator(t_program* program, const std::map<std::string, std::string>& parsed_options,
                                       const std::string& option_string) {
        return new generator(program, parsed_options, option_string);
    }
};

#define THRIFT_REGISTER_GENERATOR(language, long_name, doc)                  \
    class t_##language##_generator_factory_impl                              \
        : public t_generator_factory_impl<t_##language##_generator> {        \
    public:                                                                  \
        t_##language##_generator_factory_impl()                              \
            : t_generator_factory_impl<t_##language##_generator>(            \
                  #language, long_name, doc) {}                              \
    };                                                                       \
    static t_##language##_generator_factory_impl _registerer;

#endif
