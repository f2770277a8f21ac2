// main_reached() as it is in a program that is linked with a library of which the signature is chosen by the test.
#include "cwd_sys.h"
#define get_config_signature_lib_c vx_lib_signature_impl
#define main_reached vx_main_reached_impl
#include <libcwd/config.h>
unsigned long vx_lib_signature();
namespace libcwd { unsigned long vx_lib_signature_impl() { return vx_lib_signature(); } }
unsigned long vx_header_signature = libcwd::config_signature_header_c;
void vx_main_reached() { libcwd::vx_main_reached_impl(); }
