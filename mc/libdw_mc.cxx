// libdw, for the controlled scheduler: it is not safe to use one Dwarf handle in two threads at the same time,
// therefore every call that can change what hangs under a handle counts as a write to that handle.
// Handles are counted per file.
#include "mcrt.h"
#include <elfutils/libdw.h>
#include <elfutils/libdwfl.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C" {
int mc_dw_opened[64], mc_dw_closed[64];         // Per file.
ino_t mc_dw_inode[64];
static uint64_t slot_of_file[64];               // What is accessed.
static Dwarf* handle[256]; static int file[256]; static int nhandles, nfiles;
static int find(Dwarf* d) { if (d) for (int i = nhandles - 1; i >= 0; --i) if (handle[i] == d) return i; return -1; }
static void use(Dwarf* d, void* pc)
{
  int i = find(d);
  if (i >= 0 && mc_controlled()) mc_access(&slot_of_file[file[i]], 8, 1, pc);
}
static Dwarf* of(void const* cu) { return cu ? *(Dwarf**)cu : nullptr; }        // The first member of struct Dwarf_CU.
#define PC __builtin_return_address(0)
int mc_dw_file(ino_t ino) { for (int i = 0; i < nfiles; ++i) if (mc_dw_inode[i] == ino) return i; return -1; }
Dwarf* __real_dwarf_begin(int fd, Dwarf_Cmd cmd);
Dwarf* __wrap_dwarf_begin(int fd, Dwarf_Cmd cmd)
{
  Dwarf* d = __real_dwarf_begin(fd, cmd);
  struct stat st;
  if (d && fstat(fd, &st) == 0)
  {
    int f = mc_dw_file(st.st_ino);
    if (f < 0 && nfiles < 64) { f = nfiles++; mc_dw_inode[f] = st.st_ino; }
    if (f >= 0 && nhandles < 256) { handle[nhandles] = d; file[nhandles++] = f; ++mc_dw_opened[f]; use(d, PC); }
  }
  return d;
}
int __real_dwarf_end(Dwarf* d);
int __wrap_dwarf_end(Dwarf* d)
{
  use(d, PC);
  int i = find(d);
  if (i >= 0) { ++mc_dw_closed[file[i]]; handle[i] = nullptr; }
  else if (d && mc_controlled()) mc_fail("dwarf_end of a handle that is not open");
  return __real_dwarf_end(d);
}
#define WRAP(ret, name, params, args, h) ret __real_##name params; ret __wrap_##name params { use(h, PC); return __real_##name args; }
WRAP(int, dwarf_nextcu, (Dwarf* d, Dwarf_Off o, Dwarf_Off* n, size_t* s, Dwarf_Off* a, uint8_t* b, uint8_t* c), (d, o, n, s, a, b, c), d)
WRAP(Dwarf_Die*, dwarf_offdie, (Dwarf* d, Dwarf_Off o, Dwarf_Die* r), (d, o, r), d)
WRAP(ptrdiff_t, dwarf_getfuncs, (Dwarf_Die* d, int (*cb)(Dwarf_Die*, void*), void* a, ptrdiff_t o), (d, cb, a, o), of(d->cu))
WRAP(ptrdiff_t, dwarf_ranges, (Dwarf_Die* d, ptrdiff_t o, Dwarf_Addr* b, Dwarf_Addr* s, Dwarf_Addr* e), (d, o, b, s, e), of(d->cu))
WRAP(Dwarf_Die*, dwarf_diecu, (Dwarf_Die* d, Dwarf_Die* r, uint8_t* a, uint8_t* b), (d, r, a, b), of(d->cu))
WRAP(int, dwarf_getscopes, (Dwarf_Die* d, Dwarf_Addr a, Dwarf_Die** r), (d, a, r), of(d->cu))
WRAP(int, dwarf_haspc, (Dwarf_Die* d, Dwarf_Addr a), (d, a), of(d->cu))
WRAP(int, dwarf_tag, (Dwarf_Die* d), (d), of(d->cu))
WRAP(int, dwarf_child, (Dwarf_Die* d, Dwarf_Die* r), (d, r), of(d->cu))
WRAP(int, dwarf_siblingof, (Dwarf_Die* d, Dwarf_Die* r), (d, r), of(d->cu))
WRAP(Dwarf_Attribute*, dwarf_attr_integrate, (Dwarf_Die* d, unsigned n, Dwarf_Attribute* r), (d, n, r), of(d->cu))
WRAP(char const*, dwarf_diename, (Dwarf_Die* d), (d), of(d->cu))
WRAP(Dwarf_Line*, dwarf_getsrc_die, (Dwarf_Die* d, Dwarf_Addr a), (d, a), of(d->cu))
WRAP(char const*, dwarf_formstring, (Dwarf_Attribute* a), (a), a ? of(a->cu) : nullptr)
}
