#pragma once
inline char const* const io_config = "";
