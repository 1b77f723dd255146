#pragma once
#include <vc_main_contracts.hpp>
