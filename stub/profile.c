/* Logs the addresses of functions as they are entered (-finstrument-functions). */
#include <stdio.h>
#include <stdlib.h>
static FILE *out;
void __attribute__((no_instrument_function)) __cyg_profile_func_enter(void *fn, void *site) {
  static void *last;
  if (!out) {
    const char *path = getenv("VERIF_CALLS");
    if (!path || !(out = fopen(path, "w")))
      return;
  }
  if (fn != last)
    fprintf(out, "%lx\n", (unsigned long)fn);
  last = fn;
}
void __attribute__((no_instrument_function)) __cyg_profile_func_exit(void *fn, void *site) {}
