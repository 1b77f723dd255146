// C22: the run parameters.  INIReader is used by its contract only: a getter returns the value of its key when the key is
// present and its default otherwise (the contract is enforced on the real methods by h_inireader.cpp).
#include <contracts.hpp>
#include <cstring>
#include <string>
#include <param.cpp>
using namespace hclpp;
namespace {
enum { T_string, T_int, T_real, T_bool };
struct Key { char const* section; char const* name; int type; };
constexpr Key keys[] = {
        {"Problem", "type", T_string},
        {"Problem", "restart", T_bool},
        {"Problem", "restart_file", T_string},
        {"Problem", "rmax_shift", T_real},
        {"Grid", "Nx0_glob", T_int},
        {"Grid", "Nx1_glob", T_int},
        {"Grid", "Nx2_glob", T_int},
        {"Grid", "type", T_string},
        {"Grid", "Nghost", T_int},
        {"Grid", "x0min", T_real},
        {"Grid", "x0max", T_real},
        {"Grid", "x1min", T_real},
        {"Grid", "x1max", T_real},
        {"Grid", "x2min", T_real},
        {"Grid", "x2max", T_real},
        {"Grid", "shift_grid", T_string},
        {"Parallelization", "mpi_device_aware", T_bool},
        {"Parallelization", "mpi_dims_cart_x0", T_int},
        {"Parallelization", "mpi_dims_cart_x1", T_int},
        {"Parallelization", "mpi_dims_cart_x2", T_int},
        {"Run", "t_ini", T_real},
        {"Run", "t_end", T_real},
        {"Run", "cfl", T_real},
        {"Output", "max_iter", T_int},
        {"Output", "iter_frequency", T_int},
        {"Output", "time_frequency", T_real},
        {"Output", "time_first_output", T_real},
        {"Output", "directory", T_string},
        {"Output", "prefix", T_string},
        {"Output", "time_job", T_int},
        {"Hydro", "reconstruction", T_string},
        {"Hydro", "riemann_solver", T_string},
        {"Gravity", "gx0", T_real},
        {"Gravity", "gx1", T_real},
        {"Gravity", "gx2", T_real},
        {"Gravity", "M", T_real},
        {"Perfect Gas", "gamma", T_real},
        {"Perfect Gas", "mu", T_real},
        {"Boundary Condition", "BC", T_string},
        {"Boundary Condition", "priority", T_string},
        {"Passive Scalar", "nfx", T_int},
        {"User step", "user_step", T_string},
        {"Pressure fix", "pressure_fix", T_string},
        {"Pressure fix", "eps_pf", T_real},
};
constexpr int n_keys = sizeof(keys) / sizeof(keys[0]);
bool present[n_keys];  // whether the file has the key
double real_[n_keys];  // its value
int int_[n_keys];
bool bool_[n_keys];
std::string* string_[n_keys];
// getters are insensitive to the case of section and name
bool same(std::string const& a, char const* b)
{
    unsigned k = 0;
    for (; k < a.size(); ++k) {
        char const c = a[k], d = b[k];
        if (d == 0) return false;
        char const lc = c >= 'A' && c <= 'Z' ? c + 32 : c, ld = d >= 'A' && d <= 'Z' ? d + 32 : d;
        if (lc != ld) return false;
    }
    return b[k] == 0;
}
int key_of(std::string const& section, std::string const& name, int type)
{
    for (int k = 0; k < n_keys; ++k)
        if (keys[k].type == type && name == keys[k].name && section == keys[k].section) return k;
    for (int k = 0; k < n_keys; ++k)
        if (keys[k].type == type && same(name, keys[k].name) && same(section, keys[k].section)) return k;
    vc_assert("only documented keys are read, with their type", false);
    return 0;
}
template <class T>
T get_integer(std::string const& section, std::string const& name, T def)
{
    int const k = key_of(section, name, T_int);
    return present[k] ? static_cast<T>(int_[k]) : def;
}
template <class T>
T get_real(std::string const& section, std::string const& name, T def)
{
    int const k = key_of(section, name, T_real);
    return present[k] ? static_cast<T>(real_[k]) : def;
}
} // namespace
INIReader::INIReader() = default;
std::string INIReader::Get(std::string const& section, std::string const& name, std::string const& def) const
{
    int const k = key_of(section, name, T_string);
    if (present[k]) return *string_[k];
    return def;
}
int INIReader::GetInteger(std::string const& s, std::string const& n, int def) const { return get_integer(s, n, def); }
long INIReader::GetInteger(std::string const& s, std::string const& n, long def) const { return get_integer(s, n, def); }
long long INIReader::GetInteger(std::string const& s, std::string const& n, long long def) const { return get_integer(s, n, def); }
unsigned INIReader::GetInteger(std::string const& s, std::string const& n, unsigned def) const { return get_integer(s, n, def); }
unsigned long INIReader::GetInteger(std::string const& s, std::string const& n, unsigned long def) const { return get_integer(s, n, def); }
unsigned long long INIReader::GetInteger(std::string const& s, std::string const& n, unsigned long long def) const { return get_integer(s, n, def); }
float INIReader::GetReal(std::string const& s, std::string const& n, float def) const { return get_real(s, n, def); }
double INIReader::GetReal(std::string const& s, std::string const& n, double def) const { return get_real(s, n, def); }
long double INIReader::GetReal(std::string const& s, std::string const& n, long double def) const { return get_real(s, n, def); }
bool INIReader::GetBoolean(std::string const& s, std::string const& n, bool def) const
{
    int const k = key_of(s, n, T_bool);
    return present[k] ? bool_[k] : def;
}
namespace {
int at(char const* section, char const* name)
{
    for (int k = 0; k < n_keys; ++k)
        if (std::strcmp(name, keys[k].name) == 0 && std::strcmp(section, keys[k].section) == 0) return k;
    return -1;
}
void is_int(char const* what, int v, char const* s, char const* n, int def)
{
    int const k = at(s, n);
    vc_assert(what, v == (present[k] ? int_[k] : def));
}
void is_real(char const* what, double v, char const* s, char const* n, double def)
{
    int const k = at(s, n);
    vc_eq(what, v, present[k] ? real_[k] : def);
}
void is_bool(char const* what, bool v, char const* s, char const* n, bool def)
{
    int const k = at(s, n);
    vc_assert(what, v == (present[k] ? bool_[k] : def));
}
void is_string(char const* what, std::string const& v, char const* s, char const* n, char const* def)
{
    int const k = at(s, n);
    if (present[k]) vc_assert(what, v == *string_[k]);
    else vc_assert(what, v == def);
}
// which of the text keys are present: every number is arbitrary, the texts are one of: all, none, only one, all but one
void run(int mode)
{
    int text = 0;
    for (int k = 0; k < n_keys; ++k)
        if (keys[k].type == T_string) {
            present[k] = mode == 0 ? false : mode == 1 ? true : mode % 2 == 0 ? text == mode / 2 - 1 : text != mode / 2 - 1;
            ++text;
        }
    INIReader const reader;
    Param const p(reader);
    is_string("problem", p.problem, "Problem", "type", "ShockTube");
    is_bool("restart", p.restart, "Problem", "restart", false);
    is_string("restart_file", p.restart_file, "Problem", "restart_file", "None");
    is_real("rmax_shift", p.rmax_shift, "Problem", "rmax_shift", 1E20);
    is_int("Nx_glob_ng[0]", p.Nx_glob_ng[0], "Grid", "Nx0_glob", 0);
    is_int("Nx_glob_ng[1]", p.Nx_glob_ng[1], "Grid", "Nx1_glob", 0);
    is_int("Nx_glob_ng[2]", p.Nx_glob_ng[2], "Grid", "Nx2_glob", 0);
    is_string("grid_type", p.grid_type, "Grid", "type", "Regular");
    is_int("Ng", p.Ng, "Grid", "Nghost", 2);
    is_real("x0min", p.x0min, "Grid", "x0min", 0);
    is_real("x0max", p.x0max, "Grid", "x0max", 1);
    is_real("x1min", p.x1min, "Grid", "x1min", 0);
    is_real("x1max", p.x1max, "Grid", "x1max", 1);
    is_real("x2min", p.x2min, "Grid", "x2min", 0);
    is_real("x2max", p.x2max, "Grid", "x2max", 1);
    is_string("shift_grid", p.shift_grid, "Grid", "shift_grid", "Off");
    is_bool("mpi_device_aware", p.mpi_device_aware, "Parallelization", "mpi_device_aware", false);
    is_int("mpi_dims_cart[0]", p.mpi_dims_cart[0], "Parallelization", "mpi_dims_cart_x0", 0);
    is_int("mpi_dims_cart[1]", p.mpi_dims_cart[1], "Parallelization", "mpi_dims_cart_x1", 0);
    is_int("mpi_dims_cart[2]", p.mpi_dims_cart[2], "Parallelization", "mpi_dims_cart_x2", 0);
    is_real("t_ini", p.t_ini, "Run", "t_ini", 0);
    is_real("t_end", p.t_end, "Run", "t_end", 0.2);
    is_real("cfl", p.cfl, "Run", "cfl", 0.4);
    is_int("max_iter", p.max_iter, "Output", "max_iter", 10000);
    is_int("iter_output_frequency", p.iter_output_frequency, "Output", "iter_frequency", 0);
    is_real("time_output_frequency", p.time_output_frequency, "Output", "time_frequency", 0);
    // the first output is one period after the start unless said otherwise
    is_real("time_first_output", p.time_first_output, "Output", "time_first_output", p.t_ini + p.time_output_frequency);
    is_string("directory", p.directory, "Output", "directory", ".");
    is_string("prefix", p.prefix, "Output", "prefix", "result");
    is_int("time_job", p.time_job, "Output", "time_job", 20);
    is_string("reconstruction_type", p.reconstruction_type, "Hydro", "reconstruction", "VanLeer");
    is_string("riemann_solver", p.riemann_solver, "Hydro", "riemann_solver", "HLL");
    is_real("gx0", p.gx0, "Gravity", "gx0", 0);
    is_real("gx1", p.gx1, "Gravity", "gx1", 0);
    is_real("gx2", p.gx2, "Gravity", "gx2", 0);
    is_real("M", p.M, "Gravity", "M", 1);
    is_real("gamma", p.gamma, "Perfect Gas", "gamma", 5. / 3);
    is_real("mu", p.mu, "Perfect Gas", "mu", 1);
    is_string("bc_choice", p.bc_choice, "Boundary Condition", "BC", "");
    is_string("bc_priority", p.bc_priority, "Boundary Condition", "priority", "");
    is_int("nfx", p.nfx, "Passive Scalar", "nfx", 0);
    is_string("user_step", p.user_step, "User step", "user_step", "Off");
    is_string("pressure_fix", p.pressure_fix, "Pressure fix", "pressure_fix", "Off");
    is_real("eps_pf", p.eps_pf, "Pressure fix", "eps_pf", 1e-6);
}
} // namespace
VC_HARNESS
{
    int n_texts = 0;
    for (int k = 0; k < n_keys; ++k) {
        if (keys[k].type == T_string) {
            string_[k] = new std::string;
            vc_string(string_[k], keys[k].name);
            ++n_texts;
        } else {
            present[k] = vc_bool("present");
            real_[k] = vc_real(keys[k].name);
            int_[k] = vc_int(keys[k].name, -2147483648L, 2147483647L);
            bool_[k] = vc_bool(keys[k].name);
        }
    }
    for (int mode = 0; mode < 2 * n_texts + 2; ++mode) run(mode);
    vc_cover("reached");
}
