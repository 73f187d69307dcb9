/* Simulated disk behind real stdio streams (fopencookie): real buffering, simulated device. */
#define _GNU_SOURCE
#include "internal.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

extern u32 sim_fc_get(int what);
extern void sim_fc_dec(int what);
extern void sim_io_fired(int kind);
extern void sim_check_range(const void* a, size_t n, int write, uptr pc);
#define RA ((uptr)__builtin_return_address(0))
#define NFILES 24
#define NSTREAMS 128
#define NAME 120
typedef struct {
  char name[NAME];
  u8* data;
  u32 size, cap;
  int exists;
} dfile;
static dfile disk[NFILES];
static dfile crash[NFILES];
static u32 disk_used;
static u32 crash_at, device_writes;
static int crash_taken;
static u32 bufsize = 4096;
typedef struct {
  FILE* f;
  int open;
  dfile* d;
  u64 pos;
  int write, read, append;
  char buf[8192];
} stream;
static stream streams[NSTREAMS];
static int nstreams;

static dfile* disk_find(const char* n) {
  for (int i = 0; i < NFILES; i++)
    if (disk[i].exists && !strcmp(disk[i].name, n)) return &disk[i];
  return 0;
}
static dfile* disk_make(const char* n) {
  dfile* d = disk_find(n);
  if (d) return d;
  for (int i = 0; i < NFILES; i++)
    if (!disk[i].exists) {
      d = &disk[i];
      memset(d, 0, sizeof *d);
      snprintf(d->name, NAME, "%s", n);
      d->exists = 1;
      return d;
    }
  return 0;
}
static void disk_write(dfile* d, u64 pos, const void* p, u64 n) {
  if (pos + n > d->cap) {
    u32 c = (pos + n) * 2 + 64;
    u8* q = realloc(d->data, c);
    d->data = q;
    d->cap = c;
  }
  if (pos > d->size) memset(d->data + d->size, 0, pos - d->size);
  memcpy(d->data + pos, p, n);
  if (pos + n > d->size) {
    disk_used += pos + n - d->size;
    d->size = pos + n;
  }
}
static void take_crash_image(void) {
  crash_taken = 1;
  for (int i = 0; i < NFILES; i++) {
    crash[i] = disk[i];
    if (disk[i].data) {
      crash[i].data = malloc(disk[i].size + 1);
      memcpy(crash[i].data, disk[i].data, disk[i].size);
    }
  }
}
static ssize_t c_read(void* c, char* b, size_t n) {
  stream* s = c;
  if (sim_faults_enabled()) {
    u32 r = sim_fc_get(5);
    if (r == 1) {
      sim_fc_dec(5);
      sim_io_fired(F_READ_EIO);
      sim_trace("device read fails");
      errno = EIO;
      return -1;
    }
    if (r) sim_fc_dec(5);
  }
  u64 left = s->pos < s->d->size ? s->d->size - s->pos : 0;
  if (n > left) n = left;
  if (n > 1 && sim_faults_enabled()) {
    u32 k = sim_choose(S_FAULT, 4);
    if (k) {
      size_t m = 1 + sim_choose(S_FAULT, n > 1000 ? 1000 : (u32)n);
      if (m < n) {
        n = m;
        sim_fired(F_SHORT_READ);
      }
    }
  }
  memcpy(b, s->d->data + s->pos, n);
  s->pos += n;
  return n;
}
static ssize_t c_write(void* c, const char* b, size_t n) {
  stream* s = c;
  device_writes++;
  if (crash_at && device_writes == crash_at && !crash_taken) {
    /* the machine dies during this write: a prefix of it may have reached the disk */
    u32 torn = n ? sim_choose(S_FAULT, (u32)n + 1) : 0;
    if (torn) {
      disk_write(s->d, s->pos, b, torn);
      sim_fired(F_TORN_WRITE);
    }
    sim_fired(F_WRITER_CRASH);
    take_crash_image();
  }
  if (sim_faults_enabled()) {
    u32 w = sim_fc_get(1);
    if (w == 1) {
      sim_fc_dec(1);
      sim_io_fired(F_WRITE_EIO);
      sim_trace("device write of %zu bytes fails", n);
      errno = EIO;
      return 0;
    }
    if (w) sim_fc_dec(1);
    u32 cap = sim_fc_get(2);
    if (cap) {
      u64 grow = s->pos + n > s->d->size ? s->pos + n - s->d->size : 0;
      if (disk_used + grow > cap) {
        u64 can = cap > disk_used ? cap - disk_used : 0;
        u64 m = s->pos < s->d->size ? s->d->size - s->pos + can : can;
        if (m > n) m = n;
        disk_write(s->d, s->pos, b, m);
        s->pos += m;
        sim_io_fired(F_DISK_FULL);
        sim_trace("disk full after %llu of %zu bytes", (unsigned long long)m, n);
        errno = ENOSPC;
        return m;
      }
    }
  }
  disk_write(s->d, s->pos, b, n);
  s->pos += n;
  return n;
}
static int c_seek(void* c, off64_t* o, int w) {
  stream* s = c;
  if (sim_faults_enabled()) {
    u32 k = sim_fc_get(3);
    if (k == 1) {
      sim_fc_dec(3);
      sim_io_fired(F_SEEK_FAIL);
      sim_trace("seek fails");
      errno = EIO;
      return -1;
    }
    if (k) sim_fc_dec(3);
  }
  off64_t p = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)s->pos : (off64_t)s->d->size;
  p += *o;
  if (p < 0) {
    errno = EINVAL;
    return -1;
  }
  s->pos = p;
  *o = p;
  return 0;
}
static int c_close(void* c) {
  (void)c;
  if (sim_faults_enabled()) {
    u32 k = sim_fc_get(4);
    if (k == 1) {
      sim_fc_dec(4);
      sim_io_fired(F_CLOSE_FAIL);
      sim_trace("close fails");
      errno = EIO;
      return -1;
    }
    if (k) sim_fc_dec(4);
  }
  return 0;
}
FILE* sim_fopen(const char* path, const char* mode) {
  sim_yield();
  if (nstreams >= NSTREAMS) {
    errno = EMFILE;
    return 0;
  }
  if (sim_faults_enabled()) {
    u32 k = sim_fc_get(0);
    if (k == 1) {
      sim_fc_dec(0);
      sim_io_fired(F_OPEN_FAIL);
      sim_trace("fopen(%s) fails", path);
      errno = EACCES;
      return 0;
    }
    if (k) sim_fc_dec(0);
  }
  stream* s = &streams[nstreams];
  memset(s, 0, sizeof *s);
  dfile* d = disk_find(path);
  int plus = strchr(mode, '+') != 0;
  if (mode[0] == 'r') {
    if (!d) {
      errno = ENOENT;
      return 0;
    }
    s->read = 1;
    s->write = plus;
  } else if (mode[0] == 'w') {
    d = disk_make(path);
    if (d) {
      disk_used -= d->size;
      d->size = 0;
    }
    s->write = 1;
    s->read = plus;
  } else {
    d = disk_make(path);
    if (d) s->pos = d->size;
    s->write = 1;
  }
  if (!d) {
    errno = ENOSPC;
    return 0;
  }
  s->d = d;
  cookie_io_functions_t io = { s->read ? c_read : 0, s->write ? c_write : 0, c_seek, c_close };
  s->f = fopencookie(s, mode, io);
  if (!s->f) return 0;
  if (bufsize) setvbuf(s->f, s->buf, _IOFBF, bufsize > sizeof s->buf ? sizeof s->buf : bufsize);
  else setvbuf(s->f, 0, _IONBF, 0);
  s->open = 1;
  nstreams++;
  sim_trace("fopen(%s, %s)", path, mode);
  return s->f;
}
static stream* chk(FILE* f, const char* what) {
  if (!f) sim_violation("file-misuse", "%s on a null file", what);
  for (int i = 0; i < nstreams; i++)
    if (streams[i].f == f && streams[i].open) return &streams[i];
  sim_violation("file-misuse", "%s on a file that is not open", what);
}
int sim_fclose(FILE* f) {
  sim_yield();
  stream* s = chk(f, "fclose");
  s->open = 0;
  s->f = 0;
  int r = fclose(f);
  sim_trace("fclose(%s) = %d", s->d->name, r);
  return r;
}
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) {
  chk(f, "fwrite");
  if (a * b) sim_check_range(p, a * b, 0, RA);
  size_t r = fwrite(p, a, b, f);
  sim_trace("fwrite(%zu * %zu) = %zu", a, b, r);
  return r;
}
size_t sim_fread(void* p, size_t a, size_t b, FILE* f) {
  stream* s = chk(f, "fread");
  (void)s;
  if (a * b) sim_check_range(p, a * b, 1, RA);
  size_t r = fread(p, a, b, f);
  sim_trace("fread(%zu * %zu) = %zu", a, b, r);
  return r;
}
int sim_fseek(FILE* f, long o, int w) {
  chk(f, "fseek");
  int r = fseek(f, o, w);
  sim_trace("fseek(%ld, %d) = %d", o, w, r);
  return r;
}
int sim_fseeko(FILE* f, off_t o, int w) { return sim_fseek(f, o, w); }
long sim_ftell(FILE* f) { chk(f, "ftell"); return ftell(f); }
off_t sim_ftello(FILE* f) { chk(f, "ftell"); return ftello(f); }
void sim_rewind(FILE* f) { chk(f, "rewind"); rewind(f); }
int sim_feof(FILE* f) { chk(f, "feof"); return feof(f); }
int sim_ferror(FILE* f) { chk(f, "ferror"); return ferror(f); }
void sim_clearerr(FILE* f) { chk(f, "clearerr"); clearerr(f); }
int sim_fflush(FILE* f) {
  if (!f || f == stdout || f == stderr) return 0;
  chk(f, "fflush");
  return fflush(f);
}
int sim_fgetc(FILE* f) { chk(f, "fgetc"); return fgetc(f); }
int sim_getc(FILE* f) { chk(f, "getc"); return fgetc(f); }
char* sim_fgets(char* b, int n, FILE* f) {
  chk(f, "fgets");
  if (n > 0) sim_check_range(b, n, 1, RA);
  return fgets(b, n, f);
}
/* synchronisation has nothing to do: what reached the device is on the disk */
int sim_fileno(FILE* f) {
  if (!f || f == stdin || f == stdout || f == stderr) return -1;
  chk(f, "fileno");
  return 1000;
}
int sim_fsync(int fd) { return fd == 1000 ? 0 : -1; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_ungetc(int c, FILE* f) { chk(f, "ungetc"); return ungetc(c, f); }
int sim_setvbuf(FILE* f, char* b, int m, size_t n) { (void)b; (void)m; (void)n; chk(f, "setvbuf"); return 0; }
int sim_fputc(int c, FILE* f) {
  if (f == stdout || f == stderr) return c;
  chk(f, "fputc");
  return fputc(c, f);
}
int sim_fputs(const char* s, FILE* f) {
  if (f == stdout || f == stderr) return 0;
  chk(f, "fputs");
  return fputs(s, f);
}
int sim_vfprintf(FILE* f, const char* m, va_list ap) {
  if (f == stdout || f == stderr) return 0;
  chk(f, "fprintf");
  return vfprintf(f, m, ap);
}
int sim_fprintf(FILE* f, const char* m, ...) {
  va_list ap;
  va_start(ap, m);
  int r = sim_vfprintf(f, m, ap);
  va_end(ap);
  return r;
}
int sim_printf(const char* m, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, m);
  int r = vsnprintf(b, sizeof b, m, ap);
  va_end(ap);
  sim_yield();
  return r < 0 ? 0 : r;
}
int sim_vprintf(const char* m, va_list ap) {
  char b[2000];
  int r = vsnprintf(b, sizeof b, m, ap);
  sim_yield();
  return r < 0 ? 0 : r;
}
int sim_puts(const char* s) { (void)s; return 1; }
int sim_putchar(int c) { return c; }
void sim_perror(const char* s) { (void)s; }
int sim_remove(const char* n) {
  dfile* d = disk_find(n);
  if (!d) {
    errno = ENOENT;
    return -1;
  }
  disk_used -= d->size;
  d->exists = 0;
  return 0;
}
int sim_unlink(const char* n) { return sim_remove(n); }
int sim_rename(const char* a, const char* b) {
  dfile* d = disk_find(a);
  if (!d) {
    errno = ENOENT;
    return -1;
  }
  sim_remove(b);
  snprintf(d->name, NAME, "%s", b);
  return 0;
}
int sim_access(const char* n, int m) {
  (void)m;
  if (disk_find(n)) return 0;
  errno = ENOENT;
  return -1;
}

int sim_file_exists(const char* p) { return disk_find(p) != 0; }
u8* sim_file_data(const char* p, u32* size) {
  dfile* d = disk_find(p);
  *size = d ? d->size : 0;
  return d ? d->data : 0;
}
void sim_file_put(const char* p, const void* data, u32 size) {
  dfile* d = disk_make(p);
  if (!d) return;
  disk_used -= d->size;
  d->size = 0;
  disk_write(d, 0, data, size);
}
int sim_open_files(void) {
  int n = 0;
  for (int i = 0; i < nstreams; i++) n += streams[i].open;
  return n;
}
void sim_disk_reset(void) {
  for (int i = 0; i < NFILES; i++) disk[i].exists = 0;
  disk_used = 0;
}
void sim_disk_crash_at(u32 n) {
  crash_at = n;
  device_writes = 0;
  crash_taken = 0;
}
int sim_disk_crash_taken(void) { return crash_taken; }
u8* sim_disk_crash_image(const char* p, u32* size) {
  for (int i = 0; i < NFILES; i++)
    if (crash[i].exists && !strcmp(crash[i].name, p)) {
      *size = crash[i].size;
      return crash[i].data;
    }
  *size = 0;
  return 0;
}
void sim_disk_stdio_buffer(u32 n) { bufsize = n; }
void sim_file_end_check(void) {}
