#pragma once
// Must not use anything of libcwd.
#include <iostream>
#include <cstdlib>
#include <functional>
#include <utility>
struct Entry { void (*f)(); char const* text; int fatal; };
int t(int event);       // Records an event.
int c(int n);           // A condition.
int w(int n);           // Idem, for loops.
[[noreturn]] void fatal_ref(std::function<void(std::ostream&)> const&);
