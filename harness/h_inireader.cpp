// C22: INIReader, with the file parser used by its contract (C21): the handler is called once per value of the file, in
// order, and the result is 0 or the first line in error.  Values are arbitrary texts; section and key names are spelled out.
#include <contracts.hpp>
#include <stdexcept>
#include <string>
#include <INIReader.cpp>
namespace {
struct Line { char const* section; char const* name; std::string* value; };
Line lines[8];
int n_lines, code;
bool wrong_file;
std::string text(char const* name)
{
    std::string s;
    vc_string(&s, name);
    return s;
}
} // namespace
extern "C" int ini_parse(char const* filename, ini_handler handler, void* user)
{
    if (std::string(filename) != "setup.ini") wrong_file = true;
    for (int k = 0; k < n_lines; ++k) {
        int const r = handler(user, lines[k].section, lines[k].name, lines[k].value->c_str());
        vc_assert("every value is accepted", r != 0);
    }
    return code;
}
namespace {
template <class T, class F, class G>
void number(char const* what, bool empty, F&& get, G&& conversion, T def, bool checked)
{
    T got {}, want {};
    int how = 0, want_how = 0;
    try { got = get(); } catch (std::invalid_argument const&) { how = 1; } catch (std::out_of_range const&) { how = 2; }
    if (empty) want = def;
    else {
        try { want = conversion(); } catch (std::invalid_argument const&) { want_how = 1; } catch (std::out_of_range const&) { want_how = 2; }
    }
    (void)checked;
    vc_assert(what, how == want_how && (how != 0 || got == want));
}
void all(INIReader const& r, char const* section, char const* name, bool known, std::string const& value)
{
    bool const empty = !known || value.empty();
    if (known) vc_assert("Get returns the text of the key", r.Get(section, name, "default text") == value);
    else vc_assert("Get returns the default of an unknown key", r.Get(section, name, "default text") == "default text");
    int const di = vc_int("default int", -2147483648L, 2147483647L);
    long const dl = vc_int("default long", -1000000000000L, 1000000000000L);
    unsigned const du = vc_int("default unsigned", 0, 4294967295L);
    unsigned long const dul = vc_int("default unsigned long", 0, 1000000000000L);
    double const dr = vc_real("default real");
    number<int>("GetInteger of an int", empty, [&] { return r.GetInteger(section, name, di); }, [&] { return std::stoi(value); }, di, false);
    number<long>("GetInteger of a long", empty, [&] { return r.GetInteger(section, name, dl); }, [&] { return std::stol(value); }, dl, false);
    number<long long>("GetInteger of a long long", empty, [&] { return r.GetInteger(section, name, static_cast<long long>(dl)); }, [&] { return std::stoll(value); }, dl, false);
    number<unsigned>("GetInteger of an unsigned", empty, [&] { return r.GetInteger(section, name, du); },
            [&] {
                unsigned long const v = std::stoul(value);
                if (v > 4294967295UL) throw std::out_of_range("unsigned");
                return static_cast<unsigned>(v);
            }, du, true);
    number<unsigned long>("GetInteger of an unsigned long", empty, [&] { return r.GetInteger(section, name, dul); }, [&] { return std::stoul(value); }, dul, false);
    number<unsigned long long>("GetInteger of an unsigned long long", empty, [&] { return r.GetInteger(section, name, static_cast<unsigned long long>(dul)); }, [&] { return std::stoull(value); }, dul, false);
    number<double>("GetReal of a double", empty, [&] { return r.GetReal(section, name, dr); }, [&] { return std::stod(value); }, dr, false);
}
} // namespace
VC_HARNESS
{
    std::string v0 = text("value 0"), v1 = text("value 1"), v2 = text("value 2");
    code = vc_int("result of the parser", -1, 1000000);
    wrong_file = false;
    lines[0] = {"Sec one", "Key", &v0};
    lines[1] = {"sec", "ONE=key", &v2}; // a different key
    lines[2] = {"SEC ONE", "kEY", &v1}; // continues the first one
    lines[3] = {"", "key", &v2};
#if PART == 0
    for (n_lines = 0; n_lines <= 4; ++n_lines) {
        bool failed = false;
        try {
            INIReader const r("setup.ini");
            vc_assert("an unreadable or wrong file is not accepted", code == 0);
            bool const second = n_lines > 2;
            std::string key = v0;
            if (second) {
                if (v0.empty()) key = v1;
                else key = v0 + "\n" + v1;
            }
            all(r, "Sec one", "Key", n_lines > 0, key);
            all(r, "sec one", "KEY", n_lines > 0, key);
            all(r, "sec", "one=key", n_lines > 1, v2);
            all(r, "", "Key", n_lines > 3, v2);
            all(r, "Sec one", "Ke", false, v2);
            all(r, "Sec on", "eKey", false, v2);
        } catch (std::runtime_error const&) {
            failed = true;
        }
        vc_assert("a readable file is accepted", failed == (code != 0));
    }
    vc_assert("the named file is read", !wrong_file);
    INIReader const none;
    all(none, "Sec one", "Key", false, v0);
#else
    // truth values: the eight words in every capitalisation of their letters, and texts that are none of them
    code = 0;
    n_lines = 1;
    char const* const words[] = {"true", "yes", "on", "1", "false", "no", "off", "0"};
    for (int w = 0; w < 8; ++w) {
        std::string const word = words[w];
        for (unsigned caps = 0; caps < (1U << word.size()); ++caps) {
            std::string s = word;
            for (unsigned k = 0; k < word.size(); ++k)
                if ((caps >> k & 1U) && word[k] >= 'a') s[k] = word[k] - 32;
            lines[0].value = &s;
            INIReader const r("setup.ini");
            vc_assert("GetBoolean reads every spelling of its words", r.GetBoolean("sec one", "key", w >= 4) == (w < 4));
        }
        for (unsigned change = 0; change < 4; ++change) {
            std::string s = change == 0 ? word + "x" : change == 1 ? " " + word : change == 2 ? word.substr(0, word.size() - 1) : word + word;
            lines[0].value = &s;
            INIReader const r("setup.ini");
            bool const def = vc_bool("default truth");
            bool got = false, threw = false;
            try { got = r.GetBoolean("Sec one", "Key", def); } catch (std::out_of_range const&) { threw = true; }
            if (s.empty()) vc_assert("GetBoolean of an empty text is the default", !threw && got == def);
            else vc_assert("GetBoolean reports any other text", threw);
        }
    }
    INIReader const none;
    vc_assert("GetBoolean of an unknown key is the default", none.GetBoolean("a", "b", true) && !none.GetBoolean("a", "b", false));
#endif
    vc_cover("reached");
}
