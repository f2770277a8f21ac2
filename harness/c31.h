// C31: what the generated statements use.
#pragma once
#include "cwd_sys.h"
#include <iomanip>
#include <iostream>
#include <functional>
#include <utility>
#include <vector>
#include <initializer_list>
// Inserters that are for debug output only.
struct Opaque { int n; };
namespace printer { inline std::ostream& operator<<(std::ostream& os, std::vector<int> const& v) { os << '{'; for (int i : v) os << i << ' '; return os << '}'; } inline std::ostream& operator<<(std::ostream& os, Opaque const& v) { return os << "Opaque" << v.n; } }
#define LIBCWD_USING_OSTREAM_PRELUDE using printer::operator<<
#define LIBCWD_DEBUG_CHANNELS app::channels
#include <libcwd/debug.h>
// An application with its own channels, one of which hides one of libcwd.
namespace app::channels::dc {
using namespace libcwd::channels::dc;
extern Channel mine;
extern Channel warning;
}
// A library with its own debug object and channels.
namespace lib {
extern libcwd::DebugObject dobj;
namespace channels::dc {
using namespace libcwd::channels::dc;
extern libcwd::Channel mine;
}
}
// Local variables with names that the macros could use.
#define NAMES_DECL [[maybe_unused]] int state = 3, marker = 4, label = 5, mask = 6, channel = 7, channels = 8, object = 9, objects = 10, channel_set = 11, debug_object = 12, debug_obj = 13, instance = 14, registry = 15, list = 16, lock = 17, guard = 18, os = 19, out = 20, stream = 21, buffer = 22, bufferstream = 23, current = 24, tsd = 25, set = 26, cs = 27, flag = 28, flags = 29, result = 30, ret = 31, value = 32, val = 33, it = 34, iter = 35, item = 36, first = 37, last = 38, func = 39, callback = 40, obj = 41, ch = 42, cf = 43, ctl = 44, err = 45, error = 46, errnum = 47, self = 48, that = 49, tmp = 50, temp = 51, index = 52, len = 53, size = 54, count = 55, ok = 56, done = 57, active = 58, enabled = 59, is_on = 60, is_off = 61, os_lock = 62, frame = 63, debugobject = 64, debugchannel = 65, Object = 66
#define NAMES (state == 3 && marker == 4 && label == 5 && mask == 6 && channel == 7 && channels == 8 && object == 9 && objects == 10 && channel_set == 11 && debug_object == 12 && debug_obj == 13 && instance == 14 && registry == 15 && list == 16 && lock == 17 && guard == 18 && os == 19 && out == 20 && stream == 21 && buffer == 22 && bufferstream == 23 && current == 24 && tsd == 25 && set == 26 && cs == 27 && flag == 28 && flags == 29 && result == 30 && ret == 31 && value == 32 && val == 33 && it == 34 && iter == 35 && item == 36 && first == 37 && last == 38 && func == 39 && callback == 40 && obj == 41 && ch == 42 && cf == 43 && ctl == 44 && err == 45 && error == 46 && errnum == 47 && self == 48 && that == 49 && tmp == 50 && temp == 51 && index == 52 && len == 53 && size == 54 && count == 55 && ok == 56 && done == 57 && active == 58 && enabled == 59 && is_on == 60 && is_off == 61 && os_lock == 62 && frame == 63 && debugobject == 64 && debugchannel == 65 && Object == 66)
#define MyDout(cntrl, ...) LibcwDout(LIBCWD_DEBUG_CHANNELS, lib::dobj, cntrl, __VA_ARGS__)
struct Entry { void (*f)(); char const* text; int fatal; };
int t(int event);       // Records an event.
int c(int n);           // A condition.
int w(int n);           // Idem, for loops.
int nest(int event);    // Records an event, and writes messages.
// The reference.
enum { NOTICE, WARNING, APP_MINE, APP_WARNING, LIB_MINE };
typedef std::function<void(std::ostream&)> Writer;
void ref_dout(int obj, std::initializer_list<int> channels, std::function<bool()> const& cond_error, Writer const& w);
[[noreturn]] void ref_fatal(int obj, Writer const& w);
int ref_nest(int event);
struct RefScope { RefScope(int channel, Writer const& w); ~RefScope(); };
#define REF_W(...) [&]([[maybe_unused]] std::ostream& o) { using printer::operator<<; o << __VA_ARGS__; }
#define REF(obj, chans, ...) ref_dout(obj, chans, nullptr, REF_W(__VA_ARGS__))
#define REFC(obj, chans, cond, ...) ref_dout(obj, chans, [&]() -> bool { return cond; }, REF_W(__VA_ARGS__))
