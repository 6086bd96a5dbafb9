// The parsing monitor with the <cctype> functions replaced: an argument outside unsigned char and EOF is undefined behaviour.
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include "C01.cpp"
static int vf_guard(const char* f, int c) { if(c < -1 || c > 255) { std::fprintf(stderr, "ERROR: CtypeSanitizer: %s(%d): argument is neither EOF nor an unsigned char value\n", f, c); ::vf::emergency("sanitizer"); std::fflush(nullptr); ::_exit(43); } return c; }
extern "C" {
#define G(f, cond) int f(int x) noexcept { const int c = vf_guard(#f, x); return cond; }
G(isdigit, c >= '0' && c <= '9')
G(isupper, c >= 'A' && c <= 'Z')
G(islower, c >= 'a' && c <= 'z')
G(isalpha, (c | 32) >= 'a' && (c | 32) <= 'z')
G(isalnum, (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z'))
G(isxdigit, (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'))
G(isspace, c == ' ' || (c >= 9 && c <= 13))
G(ispunct, c > 32 && c < 127 && !((c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z')))
G(tolower, c >= 'A' && c <= 'Z' ? c + 32 : c)
G(toupper, c >= 'a' && c <= 'z' ? c - 32 : c)
}
