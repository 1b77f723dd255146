// run parameters whose members are set one by one (Param itself is built from a configuration file, see C22)
#pragma once
#include <contracts.hpp>
#include <new>
#include <string>
#include <INIReader.cpp>
#include <ini.c>
#include <param.cpp>
namespace hclpp {
union AnyParam
{
    Param p;
    AnyParam()
    {
        for (std::string* s : {&p.problem, &p.restart_file, &p.grid_type, &p.directory, &p.prefix, &p.reconstruction_type, &p.riemann_solver, &p.bc_choice, &p.bc_priority, &p.user_step, &p.pressure_fix, &p.shift_grid}) new (s) std::string("");
        new (&p.reader) INIReader;
        p.nfx = 0;
        p.mpi_device_aware = false;
    }
    AnyParam(AnyParam const&) = delete;
    ~AnyParam() {}
};
} // namespace hclpp
