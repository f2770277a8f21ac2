// Compiled without debug information.
extern "C" int c23_nodebug_function(int x) { return x * 3 + 1; }
int c23_data[4] = {1, 2, 3, 4};
