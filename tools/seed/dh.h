/* demonstration helpers: every check that fails is printed and makes the program exit 1 */
#ifndef DH_H
#define DH_H
static int dh_bad;
static void dh_check(int ok, const char *what) { if (!ok) { printf("FAILED: %s\n", what); fflush(stdout); dh_bad = 1; } }
static int dh_has(const char *out, const char *what) { return strstr(out, what) != 0; }
#define DH_MAIN(f) int main(void) { alarm(100); wh_init(); f(); if (!dh_bad) printf("ok\n"); fflush(stdout); _exit(dh_bad); }
#endif
