/* native side of vf.h: replays one input file on the real code and libc */
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include "vf.h"
static unsigned char in[4096]; static int nin, pos;
void VF_ENTRY(void);
unsigned char vf_u8(void) { return pos < nin ? in[pos++] : (pos++, 0); }
static int vfd = 2;
static void out(const char *k, const char *m) { fflush(NULL); dprintf(vfd, "%s %s\n", k, m); }
void vf_assume(int c) { if (!c) { out("VF-ASSUME", ""); _exit(78); } }
void vf_check_(int c, const char *m) { if (!c) { out("VF-VIOLATION", m); _exit(77); } }
void vf_fail_(const char *m) { out("VF-VIOLATION", m); _exit(77); }
void vf_cover_(const char *l) {}
void vf_known_(const char *id) { out("VF-VIOLATION known", id); _exit(77); }
int vf_fd_live(void) { int i, n = 0; for (i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1; return n; }
long vf_concrete(long v) { return v; }
size_t __sanitizer_get_current_allocated_bytes(void);
long vf_heap_live(void) { return (long)__sanitizer_get_current_allocated_bytes(); }
void vf_observe(long v) { char b[32]; snprintf(b, 32, "%ld", v); out("VF-OBS", b); }
void vf_end(void) { out("VF-END", ""); _exit(0); }
int vf_is_sym(long v) { return 0; }
int vf_native(void) { return 1; }
int main(int c, char **v) {
  FILE *f = fopen(v[1], "r"); int x;
  if (!f) return 3;
  while (fscanf(f, "%d", &x) == 1 && nin < 4096) in[nin++] = (unsigned char)x;
  fclose(f);
  vfd = fcntl(2, F_DUPFD, 200); atexit(vf_end);
  VF_ENTRY();
  vf_end();
}
