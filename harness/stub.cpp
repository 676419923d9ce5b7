// A library of operations for the command line tools.
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
static void* text(const char* s) { return strdup(s); }
static void* gas(uint64_t n) { uint64_t* p = (uint64_t*)malloc(sizeof n); *p = n; return p; }
extern "C" {
void* echo_run(char* s) { return text(s); }
void* echo_gas(char* s) { return gas(strlen(s)); }
void* none_run(char*) { return 0; }
void* none_gas(char*) { return 0; }
void* empty_run(char*) { return text(""); }
void* empty_gas(char*) { return gas(0); }
void* runonly_run(char*) { return text("x"); }
void* gasonly_gas(char*) { return gas(7); }
void* big_run(char*) { char* p = (char*)malloc(3001); for (int i = 1; i <= 3000; ++i) p[i - 1] = 97 + i % 26; p[3000] = 0; return p; }
void* big_gas(char*) { return gas(UINT64_MAX); }
void* lines_run(char*) { return text("a\nb \t\n"); }
void* lines_gas(char*) { return gas(10); }
void* dash_r(char*) asm("\"-dash_run\"");
void* dash_g(char*) asm("\"-dash_gas\"");
void* dash_r(char*) { return text("-"); }
void* dash_g(char*) { return gas(1); }
void* anon_r(char*) asm("_run");
void* anon_g(char*) asm("_gas");
void* anon_r(char*) { return text("anon"); }
void* anon_g(char*) { return gas(2); }
}
