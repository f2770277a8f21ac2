#pragma once
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/type_info.h>
#include <type_traits>

struct Row
{
  char const* cxx;              // The type in C++.
  char const* full;             // Expected encoding of the type itself.
  char const* stripped;         // Expected encoding without reference and top-level qualifiers.
  size_t size, ref_size;        // Expected sizes.
  size_t expr_size, expr_ref_size;
  char const* typeid_name;
  libcwd::TypeInfo const& (*by_type)();
  libcwd::TypeInfo const& (*by_expr)();
};
void add(Row const& r);

template<typename T> using bare = std::remove_reference_t<T>;
extern char storage[];
template<typename T> libcwd::TypeInfo const& by_expr() { return libcwd::type_info_of(*reinterpret_cast<std::remove_reference_t<T>*>(storage)); }
template<typename T> __attribute__((noinline)) void row(char const* cxx, char const* full, char const* stripped, size_t rs, size_t ers)
{
  add({cxx, full, stripped, sizeof(T), rs, sizeof(bare<T>), ers, typeid(T).name(), &libcwd::type_info_of<T>, &by_expr<T>});
}
