#pragma once
typedef struct { int status; void* node; } PC_tree_t;
inline PC_tree_t PC_parse_path(char const*) { return {0, nullptr}; }
inline PC_tree_t PC_parse_string(char const*) { return {0, nullptr}; }
inline int PC_tree_destroy(PC_tree_t*) { return 0; }
