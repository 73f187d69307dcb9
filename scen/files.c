/* Files: written and read in pieces, on failing devices, damaged, rendered to, and plots (C15 C16 C17 C18 C22). */
#include <errno.h>
#include "common.h"
#include <string.h>
#include <stdlib.h>

#define PATH "/sim/a.wav"
#define MAXFRAMES 600
typedef struct {
  u32 frames, channels, rate;
  float* data; /* interleaved */
} model_file;

NOINST static double file_sample(u32 ch, u32 i, int kind) {
  switch (kind) {
  case 0: return (int)((i * 7 + ch * 13 + (i * i) % 11) % 200) / 100.0 - 1;
  case 1: return sin(i * 0.37 + ch) * 1.3;
  case 2: return (i + ch) % 3 ? 1e-42 * (i + 1) : -3e37;
  default: return i % 5 == 4 ? 0.1 * i : -(double)(i * 1000003u + ch);
  }
}
NOINST static u32 rd32(const u8* p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
NOINST static u32 rd16(const u8* p) { return p[0] | p[1] << 8; }
NOINST static void wr32(u8* p, u32 v) {
  p[0] = v;
  p[1] = v >> 8;
  p[2] = v >> 16;
  p[3] = v >> 24;
}
/* where the samples of a file really are. returns 0 if it is no supported wave file */
typedef struct {
  u32 channels, rate, start, size, declared, end; /* end: of what may be delivered */
} layout;
NOINST static int parse(const u8* d, u32 n, layout* l) {
  memset(l, 0, sizeof *l);
  if (n < 36 || memcmp(d, "RIFF", 4) || memcmp(d + 8, "WAVE", 4) || memcmp(d + 12, "fmt ", 4)) return 0;
  u32 fs = rd32(d + 16);
  l->channels = rd16(d + 22);
  l->rate = rd32(d + 24);
  if (fs < 16 || rd16(d + 20) != 3 || !l->channels || l->channels > 255 || rd16(d + 34) != 32) return 0;
  u64 p = 20 + (u64)fs + (fs & 1);
  for (;;) {
    if (p + 8 > n) return 0;
    u32 s = rd32(d + p + 4);
    if (!memcmp(d + p, "data", 4)) {
      l->start = p + 8;
      l->declared = s;
      /* a writer that did not finish leaves zero */
      l->end = s && (u64)l->start + s < n ? l->start + s : n;
      l->size = l->end - l->start;
      return 1;
    }
    p += 8 + (u64)s + (s & 1);
  }
}
/* a complete file with exactly these samples? */
NOINST static void check_complete(const char* path, const model_file* m, const char* when) {
  u32 n;
  u8* d = sim_file_data(path, &n);
  u32 bytes = m->frames * m->channels * 4;
  if (!d) sim_violation("file-incomplete", "no file exists %s", when);
  if (n < 44) sim_violation("file-incomplete", "the file has only %u bytes %s", n, when);
  if (memcmp(d, "RIFF", 4) || memcmp(d + 8, "WAVEfmt ", 8) || memcmp(d + 36, "data", 4)) sim_violation("file-incomplete", "the header of the file is damaged %s", when);
  if (rd32(d + 16) != 16 || rd16(d + 20) != 3 || rd16(d + 34) != 32) sim_violation("file-incomplete", "the header does not describe 32 bit floating point samples %s", when);
  if (rd16(d + 22) != m->channels) sim_violation("file-incomplete", "the header states %u channels instead of %u %s", rd16(d + 22), m->channels, when);
  if (rd32(d + 24) != m->rate) sim_violation("file-incomplete", "the header states the rate %u instead of %u %s", rd32(d + 24), m->rate, when);
  if (rd32(d + 28) != m->rate * m->channels * 4 || rd16(d + 32) != m->channels * 4) sim_violation("file-incomplete", "the header states wrong byte rates %s", when);
  if (rd32(d + 40) != bytes) sim_violation("file-incomplete", "the header states %u bytes of samples instead of %u %s", rd32(d + 40), bytes, when);
  if (rd32(d + 4) != 36 + bytes) sim_violation("file-incomplete", "the header states a size of %u instead of %u %s", rd32(d + 4), 36 + bytes, when);
  if (n != 44 + bytes) sim_violation("file-incomplete", "the file has %u bytes instead of %u %s", n, 44 + bytes, when);
  if (memcmp(d + 44, m->data, bytes)) {
    for (u32 i = 0; i < m->frames * m->channels; i++) {
      float f;
      memcpy(&f, d + 44 + 4 * i, 4);
      if (memcmp(&f, &m->data[i], 4)) sim_violation("file-incomplete", "sample %u of channel %u in the file is %g instead of %g %s", i / m->channels, i % m->channels, f, m->data[i], when);
    }
  }
}
static int companion_open; /* another file that is used at the same time */
NOINST static void check_closed(const char* when) {
  if (sim_open_files() != companion_open) sim_violation("open-file", "%d files are open %s instead of %d", sim_open_files(), when, companion_open);
}
NOINST static void check_file_status(status_t s, const char* what) {
  check_status_shape(s, what);
}
static u32 draw_buffer(void) {
  static const u32 sizes[] = { 4096, 0, 16, 64, 512, 8192 };
  u32 b = sizes[OP(6)];
  sim_disk_stdio_buffer(b);
  return b;
}
static sp_sample_t** new_channels(u32 channels, u32 n) {
  sp_sample_t** a = harness_malloc(sizeof *a * channels);
  for (u32 c = 0; c < channels; c++) a[c] = harness_malloc(sizeof(double) * (n ? n : 1));
  return a;
}
static void free_channels(sp_sample_t** a, u32 channels) {
  for (u32 c = 0; c < channels; c++) sim_free(a[c]);
  sim_free(a);
}
static u32 draw_channels(void) {
  switch (OP(6)) {
  case 0: return 1;
  case 1: return 2;
  case 5: return OP(4) == 3 ? 255 : 3 + OP(10);
  default: return 1 + OP(4);
  }
}
/* rarely many */
static u32 draw_frames(u32 channels) {
  if (channels > 20) return OP(8);
  if (channels <= 4 && OP(80) == 79) {
    PROBE(file_large);
    return OP(2) ? OPR(MAXFRAMES, 20000) : OPR(20000, OP(2) ? 70000 : 40000);
  }
  return OP(3) ? OP(40) : OP(MAXFRAMES);
}
static void model_new(model_file* m, u32 channels, u32 rate, u32 frames) {
  m->channels = channels;
  m->rate = rate;
  m->frames = 0;
  m->data = harness_malloc(sizeof(float) * (frames + !frames) * channels);
}
static void companion_step(void);
/* writes frames in pieces. returns 1 if every call reported success */
static int write_pieces(sp_file_t* f, model_file* m, u32 frames, int kind, int stop_on_error) {
  u32 done = 0, n, i, c, k;
  int ok = 1;
  status_t s;
  sp_sample_t** a;
  for (k = 0; done < frames || (k == 0 && !frames); k += 1) {
    n = OP(8) == 7 ? 0 : OP(2) ? OPR(1, 8) : OPR(1, frames + !frames);
    companion_step();
    if (n > frames - done) n = frames - done;
    if (!n) PROBE(file_empty_write);
    if (k == 1) PROBE(file_multi_write);
    a = new_channels(m->channels, n);
    for (c = 0; c < m->channels; c += 1)
      for (i = 0; i < n; i += 1) a[c][i] = file_sample(c, done + i, kind);
    s = sp_file_write(f, a, n);
    for (c = 0; c < m->channels; c += 1)
      for (i = 0; i < n; i += 1)
        if (a[c][i] != file_sample(c, done + i, kind)) sim_violation("wrong-samples", "writing to a file changed the samples");
    free_channels(a, m->channels);
    if (s.id) {
      check_file_status(s, "writing to a file");
      ok = 0;
      if (stop_on_error) break;
    } else {
      for (i = 0; i < n; i += 1)
        for (c = 0; c < m->channels; c += 1) m->data[(m->frames + i) * m->channels + c] = (float)file_sample(c, done + i, kind);
      m->frames += n;
    }
    done += n;
    if (k > 60) break;
  }
  return ok;
}
/* another file is written and read in turns with what is tested */
#define PATH2 "/sim/b.wav"
#define COMPANION_FRAMES 60
static struct {
  int used, phase; /* 0: nothing, 1: writing, 2: written, 3: reading */
  sp_file_t f;
  model_file m;
  u32 pos;
} co;
static void companion_step(void) {
  status_t s;
  u32 n, i, c;
  sp_sample_t** a;
  if (!co.used || OP(3) == 2) return;
  if (co.phase == 0) {
    co.m.frames = 0;
    s = sp_file_open_write(PATH2, co.m.channels, co.m.rate, &co.f);
    if (s.id) sim_violation("unexpected-failure", "a second file can not be opened for writing: %d", s.id);
    companion_open = 1;
    co.phase = 1;
    PROBE(two_files);
  } else if (co.phase == 1) {
    n = OP(12);
    if (co.m.frames + n <= COMPANION_FRAMES && n) {
      a = new_channels(co.m.channels, n);
      for (i = 0; i < n; i += 1)
        for (c = 0; c < co.m.channels; c += 1) {
          a[c][i] = 1000 + (co.m.frames + i) * 7 + c;
          co.m.data[(co.m.frames + i) * co.m.channels + c] = a[c][i];
        }
      s = sp_file_write(&co.f, a, n);
      if (s.id) sim_violation("unexpected-failure", "writing to a second file fails");
      co.m.frames += n;
      free_channels(a, co.m.channels);
    } else {
      s = sp_file_close_write(&co.f);
      if (s.id) sim_violation("unexpected-failure", "closing a second file fails");
      companion_open = 0;
      check_complete(PATH2, &co.m, "after it was written in turns with another file");
      co.phase = 2;
    }
  } else if (co.phase == 2) {
    memset(&co.f, 0xee, sizeof co.f);
    s = sp_file_open_read(PATH2, &co.f);
    if (s.id) sim_violation("unexpected-failure", "a second file can not be opened: %d", s.id);
    if (co.f.channel_count != co.m.channels) sim_violation("wrong-samples", "a second file with %u channels is opened with %u channels", co.m.channels, co.f.channel_count);
    companion_open = 1;
    co.pos = 0;
    co.phase = 3;
  } else {
    n = OPR(1, 20);
    a = new_channels(co.m.channels, n);
    for (c = 0; c < co.m.channels; c += 1)
      for (i = 0; i < n; i += 1) a[c][i] = -777;
    s = sp_file_read(co.f, n, a);
    int end = co.pos == co.m.frames;
    if (end ? s.id != sp_s_id_file_eof : s.id != 0) sim_violation("wrong-status", "reading a second file at %u of %u returns %d", co.pos, co.m.frames, s.id);
    for (c = 0; c < co.m.channels; c += 1)
      for (i = 0; i < n; i += 1) {
        double want = co.pos + i < co.m.frames ? 1000.0 + (co.pos + i) * 7 + c : -777.0;
        if (a[c][i] != want) sim_violation("wrong-samples", "sample %u of channel %u of a second file is read as %g instead of %g", co.pos + i, c, a[c][i], want);
      }
    free_channels(a, co.m.channels);
    co.pos = co.pos + n < co.m.frames ? co.pos + n : co.m.frames;
    if (end) {
      sp_file_close_read(co.f);
      companion_open = 0;
      co.phase = OP(2) ? 2 : 0;
    }
  }
}
static void companion_begin(void) {
  co.used = OP(3) == 2;
  co.phase = companion_open = 0;
  if (co.used) model_new(&co.m, 1 + OP(4), 100 + OP(50), COMPANION_FRAMES);
}
static void companion_end(void) {
  if (!co.used) return;
  if (companion_open && co.phase == 1) {
    if (sp_file_close_write(&co.f).id) sim_violation("unexpected-failure", "closing a second file fails");
    companion_open = 0;
    check_complete(PATH2, &co.m, "after it was written in turns with another file");
  } else if (companion_open) sp_file_close_read(co.f);
  companion_open = 0;
  co.used = 0;
  sim_free(co.m.data);
}
/* reads everything in pieces and compares with what is in the content. faulty: the device fails */
static void read_pieces(sp_file_t* f, const u8* content, const layout* l, int faulty) {
  u32 frame = 4 * l->channels, available = l->size / frame, pos = 0, n, i, c, k, got, bad;
  int ends = 0, io;
  status_t s;
  sp_sample_t** a;
  if (f->channel_count != l->channels) sim_violation("wrong-samples", "a file with %u channels is opened with %u channels", l->channels, f->channel_count);
  for (k = 0; ends < 2 && k < 400; k += 1) {
    n = OP(10) == 9 ? 0 : OP(2) ? OPR(1, 9) : OPR(1, 60);
    if (available > MAXFRAMES && OP(2)) n = OP(2) ? OPR(1, available) : available - pos;
    if (OP(4) == 3) n = available - pos + OP(30);
    companion_step();
    if (n > available - pos) PROBE(read_past_end);
    a = new_channels(l->channels, n + 3);
    for (c = 0; c < l->channels; c += 1)
      for (i = 0; i < n + 3; i += 1) a[c][i] = -777;
    io = sim_io_faults_fired();
    int al = sim_alloc_faults_fired();
    if (faulty) sim_faults_on();
    s = sp_file_read(*f, n, a);
    sim_faults_off();
    io = sim_io_faults_fired() - io;
    al = sim_alloc_faults_fired() - al;
    sim_trace("read %u at %u of %u: %d", n, pos, available, s.id);
    /* how many frames were delivered: the longest correct prefix. everything after it has to be untouched */
    got = 0;
    for (i = 0; i < n && i < available - pos; i += 1) {
      bad = 0;
      for (c = 0; c < l->channels; c += 1) {
        float v;
        memcpy(&v, content + l->start + (pos + i) * frame + 4 * c, 4);
        double d = v;
        if (memcmp(&a[c][i], &d, 8) && !(d != d && a[c][i] != a[c][i])) bad = 1;
      }
      if (bad) break;
      got = i + 1;
    }
    for (c = 0; c < l->channels; c += 1)
      for (i = got; i < n + 3; i += 1)
        if (a[c][i] != -777)
          sim_violation("wrong-samples", "reading %u samples at %u of %u gives %g for sample %u of channel %u, %s", n, pos, available, a[c][i], i, c,
            i < n && i < available - pos ? "which is not what the file contains" : "which is beyond the end");
    if (s.id) {
      check_file_status(s, "reading from a file");
      if (io || al) {
        free_channels(a, l->channels);
        PROBE(file_error_seen);
        return; /* where the file is positioned now is not defined */
      }
      if (pos < available) sim_violation("unexpected-failure", "reading %u samples at %u of %u failed with %d", n, pos, available, s.id);
      if (s.id != sp_s_id_file_eof) sim_violation("wrong-status", "reading at the end of a file returns the status %d", s.id);
      ends += 1;
    } else {
      u32 expect = n < available - pos ? n : available - pos;
      if (got != expect) {
        if (io) sim_violation("failure-lost", "the device failed but reading %u samples at %u of %u reports success with %u samples", n, pos, available, got);
        sim_violation("wrong-samples", "reading %u samples at %u of %u delivered %u", n, pos, available, got);
      }
      if (io) PROBE(file_ok_under_faults);
      if (n && !expect && l->size % frame == 0) sim_violation("wrong-status", "reading past the end of a file reports success");
      if (n && !expect) ends += 1; /* less than one sample is left */
      pos += got;
    }
    free_channels(a, l->channels);
  }
}
/* what was written reads back, in any pieces */
void scen_file_roundtrip(void) {
  sp_file_t f, f2;
  model_file m;
  status_t s;
  layout l;
  u32 n, frames, rounds = 1 + (OP(4) == 3), r, rate, buffer;
  u8* d;
  sim_faults_setup(FM_HEAP | FM_READ); /* only short reads matter here */
  lib_init(0, CHL, 50);
  u64 mark = sim_heap_mark();
  buffer = draw_buffer();
  companion_begin();
  for (r = 0; r < rounds; r += 1) { /* a second file over the first */
    u32 channels = draw_channels();
    rate = OP(4) ? 44100 : 1 + OP(200000);
    frames = channels <= 20 && OP(5) == 4 ? 0 : draw_frames(channels);
    model_new(&m, channels, rate, frames);
    sim_desc("%s%u channels, %u samples, buffer %u", r ? "; " : "", channels, frames, buffer);
    memset(&f, 0xee, sizeof f);
    s = sp_file_open_write(PATH, channels, rate, &f);
    if (s.id) sim_violation("unexpected-failure", "a file can not be opened for writing: %d", s.id);
    companion_step();
    if (!write_pieces(&f, &m, frames, OP(4), 1)) sim_violation("unexpected-failure", "writing fails without a fault");
    s = sp_file_close_write(&f);
    if (s.id) sim_violation("unexpected-failure", "closing a file fails without a fault");
    check_closed("after the file was closed");
    check_complete(PATH, &m, "after it was written");
    d = sim_file_data(PATH, &n);
    sim_hash_bytes(d, n);
    if (!parse(d, n, &l)) sim_violation("wrong-samples", "the file is not a wave file");
    memset(&f, 0xee, sizeof f);
    s = sp_file_open_read(PATH, &f);
    if (s.id) sim_violation("unexpected-failure", "a file that was just written can not be opened: %d", s.id);
    int two = OP(4) == 3;
    companion_step();
    if (two) { /* a second reader does not disturb */
      s = sp_file_open_read(PATH, &f2);
      if (s.id) sim_violation("unexpected-failure", "a file can not be opened twice: %d", s.id);
    }
    read_pieces(&f, d, &l, 0);
    if (two) {
      read_pieces(&f2, d, &l, 0);
      sp_file_close_read(f2);
    }
    sp_file_close_read(f);
    check_closed("after reading");
    sim_free(m.data);
    if (frames > 1) sim_nontrivial();
  }
  companion_end();
  check_closed("at the end");
  sim_leak_check(mark, "after files were closed");
  lib_end("after writing and reading files");
}
/* errors while writing are reported */
void scen_file_write_fail(void) {
  sp_file_t f;
  model_file m;
  status_t s;
  u32 channels = draw_channels(), frames, buffer, rate = 100 + OP(1000);
  int ok, r, alloc = OP(4) == 3;
  sim_faults_setup(FM_HEAP | FM_OPEN | FM_WRITE | FM_SEEK | FM_CLOSE | (alloc ? FM_ALLOC : 0));
  lib_init(0, CHL, 50);
  u64 mark = sim_heap_mark();
  buffer = draw_buffer();
  frames = draw_frames(channels);
  if (OP(3) == 2) sim_file_put(PATH, "something that was there before", 31);
  model_new(&m, channels, rate, frames);
  sim_desc("%u channels, %u samples, buffer %u", channels, frames, buffer);
  memset(&f, 0xee, sizeof f);
  sim_faults_on();
  s = sp_file_open_write(PATH, channels, rate, &f);
  if (s.id) {
    sim_faults_off();
    check_file_status(s, "opening a file for writing");
    if (!sim_io_faults_fired() && !sim_alloc_faults_fired()) sim_violation("unexpected-failure", "opening a file fails with %d without a fault", s.id);
    PROBE(file_error_seen);
    check_closed("after opening a file for writing failed");
  } else {
    ok = write_pieces(&f, &m, frames, OP(4), OP(2));
    s = sp_file_close_write(&f);
    sim_faults_off();
    if (s.id) check_file_status(s, "closing a file");
    check_closed("after the file was closed");
    if (ok && !s.id) {
      if (sim_io_faults_fired()) PROBE(file_ok_under_faults);
      check_complete(PATH, &m, "although opening, writing and closing reported success");
    } else {
      if (!sim_io_faults_fired() && !sim_alloc_faults_fired()) sim_violation("unexpected-failure", "writing a file fails without a fault");
      PROBE(file_error_seen);
    }
  }
  /* afterwards it works */
  r = OP(2);
  if (r) {
    m.frames = 0;
    s = sp_file_open_write(PATH, channels, rate, &f);
    if (s.id || !write_pieces(&f, &m, frames, 0, 1) || sp_file_close_write(&f).id) sim_violation("unexpected-failure", "a file can not be written after an earlier failure");
    check_complete(PATH, &m, "after an earlier failure");
  }
  sim_free(m.data);
  check_closed("at the end");
  sim_leak_check(mark, "after files were closed");
  if (sim_io_faults_fired()) sim_nontrivial();
  lib_end("after failing writes");
}
static u8* image;
static u32 image_size;
static void image_insert(u32 at, const void* data, u32 n) {
  u8* q = harness_malloc(image_size + n);
  memcpy(q, image, at);
  memcpy(q + at, data, n);
  memcpy(q + at + n, image + at, image_size - at);
  sim_free(image);
  image = q;
  image_size += n;
}
/* damaged and cut off files, failing devices */
void scen_file_damaged(void) {
  sp_file_t f;
  model_file m;
  status_t s;
  layout l;
  u32 channels = draw_channels(), frames, i, n, k, damage, buffer;
  int crashed = OP(2), faulty, valid, io, al, unsupported = 0;
  u8* d;
  sim_faults_setup(FM_HEAP | FM_READ | FM_OPEN | FM_SEEK | FM_ALLOC);
  lib_init(0, CHL, 50);
  u64 mark = sim_heap_mark();
  buffer = draw_buffer();
  faulty = OP(2);
  frames = channels > 20 ? OP(5) : OP(3) ? OP(30) : OP(200);
  model_new(&m, channels, 44100, frames);
  if (crashed) sim_disk_crash_at(1 + OP(OP(2) ? 4 : 20));
  s = sp_file_open_write(PATH, channels, 44100, &f);
  if (s.id) sim_violation("unexpected-failure", "a file can not be opened for writing");
  if (!write_pieces(&f, &m, frames, OP(4), 1)) sim_violation("unexpected-failure", "writing fails without a fault");
  if (sp_file_close_write(&f).id) sim_violation("unexpected-failure", "closing fails without a fault");
  crashed = crashed && sim_disk_crash_taken();
  d = crashed ? sim_disk_crash_image(PATH, &n) : sim_file_data(PATH, &n);
  image_size = n;
  image = harness_malloc(n + !n);
  if (n) memcpy(image, d, n);
  damage = OP(8);
  sim_desc("%u channels, %u samples, buffer %u%s", channels, frames, buffer, crashed ? ", the writer crashed" : "");
  if (damage == 1 && image_size) { /* cut off */
    image_size = OP(image_size + 1);
    if (OP(2) && image_size > 60) image_size = OP(60);
    sim_fired(F_FILE_TRUNCATED);
    sim_desc(", cut off at %u", image_size);
  }
  if ((damage == 2 || damage == 3) && image_size) { /* changed bytes, mostly of the header */
    for (k = OPR(1, 3); k; k -= 1) {
      i = OP(3) ? OP(image_size < 44 ? image_size : 44) : OP(image_size);
      u8 old = image[i];
      image[i] = OP(2) ? OP(256) : image[i] ^ (1 << OP(8));
      if (image[i] != old) sim_fired(F_BYTE_FLIP);
      sim_desc(", byte %u is %u instead of %u", i, image[i], old);
    }
  }
  if (damage == 4 && image_size >= 44) { /* other chunks before and after the samples, a longer format */
    u8 chunk[8 + 64];
    for (k = OPR(1, 3); k; k -= 1) {
      u32 len = OP(40);
      int where = OP(4);
      memset(chunk, 0x55, sizeof chunk);
      memcpy(chunk, OP(2) ? "LIST" : "fact", 4);
      wr32(chunk + 4, len);
      if (where == 3 && OP(4) == 3) wr32(chunk + 4, OP(2) ? 0xffffffffu - OP(20) : 0x80000000u + OP(20));
      u32 padded = len + (len & 1);
      if (where == 2) {
        if (image_size & 1) image_insert(image_size, "", 1);
        image_insert(image_size, chunk, 8 + padded);
        sim_desc(", a chunk of %u bytes at the end", len);
      } else if (where == 1) {
        u32 fs = rd32(image + 16), more = 2 * OP(12) + (OP(3) == 2);
        image_insert(20 + fs + (fs & 1), chunk + 8, more + ((fs + more) & 1) - (fs & 1) + 0);
        wr32(image + 16, fs + more);
        sim_desc(", a format longer by %u", more);
      } else {
        u32 fs = rd32(image + 16);
        if (20 + fs + (fs & 1) <= image_size) image_insert(20 + fs + (fs & 1), chunk, 8 + padded);
        sim_desc(", a chunk of %u bytes before the samples", len);
      }
      sim_fired(F_CHUNK_INSERTED);
    }
  }
  if (damage == 7 && image_size >= 44) { /* fields of the header at and around the limits of what they may contain */
    static const u16 counts[] = {0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 0x8000, 0xff01, 0xffff};
    static const u16 formats[] = {0, 1, 2, 4, 0x103, 0xfffe};
    static const u16 bits[] = {0, 8, 16, 24, 31, 33, 64, 0x2020, 0x120};
    static const u32 sizes[] = {0, 1, 15, 0x80000010u, 0xffffffffu, 0xfffffff0u};
    u32 v;
    switch (OP(6)) {
      case 0: v = formats[OP(6)]; image[20] = v, image[21] = v >> 8; unsupported = 1; break;
      case 1: v = bits[OP(9)]; image[34] = v, image[35] = v >> 8; unsupported = 1; break;
      case 2: v = sizes[OP(6)]; wr32(image + 16, v); break;
      default: v = counts[OP(17)]; image[22] = v, image[23] = v >> 8;
    }
    sim_fired(F_BYTE_FLIP);
    sim_desc(", the header states %u channels, format %u, %u bits, a format of %u bytes", rd16(image + 22), rd16(image + 20), rd16(image + 34), rd32(image + 16));
  }
  if (damage == 5) { /* not a file at all */
    image_size = OP(200);
    sim_free(image);
    image = harness_malloc(image_size + !image_size);
    for (i = 0; i < image_size; i += 1) image[i] = OP(4) ? OP(256) : 0;
    sim_desc(", random content of %u bytes", image_size);
  }
  if (damage == 6) {
    sim_disk_reset();
    sim_desc(", does not exist");
  } else sim_file_put(PATH, image, image_size);
  valid = parse(image, image_size, &l) && damage != 6;
  for (k = 0; k < 2; k += 1) {
    io = sim_io_faults_fired();
    al = sim_alloc_faults_fired();
    memset(&f, 0xee, sizeof f);
    if (faulty) sim_faults_on();
    s = sp_file_open_read(PATH, &f);
    sim_faults_off();
    io = sim_io_faults_fired() - io;
    al = sim_alloc_faults_fired() - al;
    sim_trace("open: %d", s.id);
    if (s.id) {
      check_file_status(s, "opening a file for reading");
      check_closed("after opening a file for reading failed");
      sp_file_close_read(f); /* is allowed */
      PROBE(read_damaged_rejected);
      if (damage == 6 && !io && !al && (strcmp((char*)s.group, sp_s_group_libc) || s.id != ENOENT))
        sim_violation("wrong-status", "opening a file that does not exist gives status %d of group %s", s.id, (char*)s.group);
      if (unsupported && !io && !al && !crashed && (strcmp((char*)s.group, sp_s_group_sp) || s.id != sp_s_id_file_not_implemented))
        sim_violation("wrong-status", "opening a file of an unsupported format gives status %d of group %s", s.id, (char*)s.group);
      if (valid && !io && !al && (damage == 0 || damage == 4 || damage == 7) && (!crashed || damage == 0) && l.channels <= 255)
        sim_violation("unexpected-failure", "a file with a valid structure can not be opened: %d", s.id);
    } else {
      if (!valid) sim_violation("wrong-samples", "a file that %s is opened without failure", damage == 6 ? "does not exist" : "is no wave file with 32 bit floating point samples");
      PROBE(read_damaged_accepted);
      read_pieces(&f, image, &l, faulty);
      sp_file_close_read(f);
      check_closed("after a damaged file was closed");
    }
    if (!faulty) break;
    faulty = 0; /* and once more on a device that works */
  }
  sim_free(image);
  sim_free(m.data);
  sim_leak_check(mark, "after a damaged file was closed");
  sim_nontrivial();
  lib_end("after reading damaged files");
}

/* ---------- rendering to files ---------- */
static double* want[CHL];
static void run_render_file(int faulty) {
  treeopt o = treeopt_all();
  node* root;
  sp_event_t e;
  sp_render_config_t rc;
  sp_block_t block;
  status_t s;
  model_file m;
  u32 end, lo, hi, c, i, blocksize, cfgrate;
  int how, channels, built, workers = 0, io, al, failed = 0, again, rounds;
  static const u32 rates[] = { 50, 8, 100 };
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP | (faulty ? FM_OPEN | FM_WRITE | FM_SEEK | FM_CLOSE | FM_ALLOC : 0));
  if (OP(4) == 3) workers = 1 + OP(3);
  channels = 1 + OP(CHL);
  how = OP(4); /* 0,1: range to file. 2: whole event. 3: range to block */
  o.par = workers != 0;
  o.max_nodes = 10;
  o.max_dur = 40;
  o.fails = faulty ? OP(3) : 0;
  if (OP(60) == 59) { /* longer files of many blocks */
    o.max_dur = 900;
    o.max_nodes = 5;
    PROBE(file_many_blocks);
  }
  lib_init(workers, CHL, draw_rate(rates[OP(3)]));
  sp_channel_count = CHL;
  draw_buffer();
  if (how == 2 && OP(3) == 2) o.max_nodes = 2 + OP(3);
  root = gen_tree(&o);
  if (how == 2 && root->nchild == 1 && OP(3)) {
    root->child[0]->start = 0;
    root->dur = tree_end(root);
  }
  if (tree_has(root, N_WAVE)) channels = CHL;
  if (how == 2) sp_channel_count = channels;
  end = tree_end(root);
  lo = how != 2 && OP(2) ? OP(end) : 0;
  hi = how == 2 ? end : OP(2) ? lo + 1 + OP(end - lo + 10) : end;
  if (OP(10) == 9) hi = lo + (how == 2 ? end : 0);
  if (lo) PROBE(range_start_nonzero);
  blocksize = OP(2) ? OPR(1, 12) : OPR(1, hi - lo + 20);
  cfgrate = 1 + OP(60000);
  sim_desc("%s, range %u..%u, blocks of %u, %d channels, ", how < 2 ? "range to file" : how == 2 ? "event to file" : "range to block", lo, hi, blocksize, channels);
  describe_tree(root);
  for (c = 0; c < CHL; c += 1) {
    want[c] = out_alloc(hi - lo + 1);
    memset(want[c], 0, sizeof(double) * (hi - lo + 1));
  }
  model_add(root, lo, hi, want, channels, 0, 0);
  model_new(&m, channels, how == 2 ? sp_rate : cfgrate, MAXFRAMES);
  sim_free(m.data);
  m.data = harness_malloc(sizeof(float) * (hi - lo + 1) * channels);
  m.frames = hi - lo;
  for (i = 0; i < m.frames; i += 1)
    for (c = 0; c < (u32)channels; c += 1) m.data[i * channels + c] = want[c][i];
  rounds = 1;
  for (again = 0; again <= rounds; again += 1) {
    tree_reset_history();
    io = sim_io_faults_fired();
    al = sim_alloc_faults_fired();
    u64 mark = sim_heap_mark();
    /* one event that has everything */
    built = 0;
    root->append = 0;
    int kids = root->nchild;
    s.id = 0;
    if (kids == 1 && OP(2) && root->child[0]->start == 0 && !root->child[0]->eager) {
      node* only = root->child[0];
      if (how == 2 && OP(2)) { /* its duration is known when it is prepared */
        only->eager = (only->kind == N_LEAF && only->has_prepare) || only->kind == N_LAZY || only->kind == N_LAZY_PAR;
        if (only->eager) PROBE(eager_alone);
      }
      s = build_event(only, &e);
    }
    else s = build_event(root, &e);
    if (s.id) { /* eager events that fail */
      if (!nfail_reported && !any_callback_memory_failure) sim_violation("unexpected-failure", "an event can not be created: %d", s.id);
      check_histories(root, lo, hi, 0);
      failed = 1;
    } else {
      built = 1;
      rc = sp_render_config(channels, cfgrate, blocksize, OP(2));
      if (rc.channel_count != channels || rc.rate != cfgrate || rc.block_size != blocksize) sim_violation("wrong-sound", "sp_render_config does not set its parameters");
      if (faulty && !again) sim_faults_on();
      memset(&block, 0, sizeof block);
      if (how < 2) s = sp_render_range_file(e, lo, hi, rc, PATH);
      else if (how == 2) s = sp_render_file(e, PATH);
      else s = sp_render_range_block(e, lo, hi, rc, &block);
      sim_faults_off();
      io = sim_io_faults_fired() - io;
      al = sim_alloc_faults_fired() - al;
      check_nothing_running("after rendering returned");
      check_closed("after rendering");
      failed = s.id != 0;
      if (failed) {
        check_status_shape(s, "rendering");
        PROBE(render_after_failure);
        if (!io && !al && !nfail_reported && !any_callback_memory_failure) sim_violation("unexpected-failure", "rendering fails with %d although nothing failed", s.id);
        if (!strcmp((char*)s.group, TEST_GROUP)) {
          int hit = 0;
          for (i = 0; i < (u32)nfail_reported; i += 1) hit |= 1000 + fail_reported[i] == s.id;
          if (!hit) sim_violation("wrong-status", "rendering returned the failure %d that no event reported", s.id);
        } else if (!io && !al && !any_callback_memory_failure) sim_violation("wrong-status", "rendering returned status %d of group %s although only events failed", s.id, (char*)s.group);
      } else {
        if (nfail_reported) sim_violation("failure-lost", "event %d failed but rendering reported success", fail_reported[0]);
        if (io) PROBE(file_ok_under_faults);
        if (how == 3) {
          if (block.size != hi - lo || block.channel_count != channels) sim_violation("wrong-sound", "the rendered block has %u samples and %u channels instead of %u and %u", block.size, block.channel_count, hi - lo, channels);
          for (c = 0; c < (u32)channels; c += 1) {
            compare("wrong-sound", block.samples[c], want[c], hi - lo, 0, "block", c);
            sim_hash_bytes(block.samples[c], sizeof(double) * (hi - lo));
          }
          sp_block_free(&block);
        } else {
          check_complete(PATH, &m, "after rendering reported success");
          u32 n;
          u8* d = sim_file_data(PATH, &n);
          sim_hash_bytes(d, n);
        }
      }
      check_histories(root, lo, hi, 0);
      sim_leak_check(mark, failed ? "after rendering failed" : "after rendering");
    }
    /* once more without faults */
    if (!failed) break;
    for (i = 0; i < (u32)nnodes; i += 1) {
      nodes[i].fail_prepare = 0;
      nodes[i].fail_at = -1;
    }
    if (again && failed) sim_violation("unexpected-failure", "rendering fails again although nothing failed");
  }
  (void)built;
  sim_free(m.data);
  if (hi - lo > blocksize) sim_nontrivial();
  lib_end("after rendering to a file");
}
static status_t never_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  sim_violation("range", "an event of no duration was called for %u..%u", start, end);
  status_return;
}
/* an event without a duration and without anything to prepare is a file without samples */
static void render_nothing(void) {
  sp_declare_event(e);
  model_file m;
  u64 mark;
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP);
  lib_init(OP(2), CHL, 50);
  sp_channel_count = 1 + OP(CHL);
  sim_desc("nothing to file");
  mark = sim_heap_mark();
  if (OP(2)) e.generate = never_generate;
  status_t s = sp_render_file(e, PATH);
  if (s.id) sim_violation("unexpected-failure", "rendering an event of no duration fails with %d", s.id);
  check_nothing_running("after rendering returned");
  check_closed("after rendering");
  model_new(&m, sp_channel_count, sp_rate, MAXFRAMES);
  check_complete(PATH, &m, "after rendering reported success");
  sim_free(m.data);
  sim_leak_check(mark, "after rendering");
  lib_end("after rendering to a file");
}
void scen_render_file(void) {
  if (OP(40) == 39) render_nothing();
  else run_render_file(0);
}
void scen_render_file_fail(void) { run_render_file(1); }

/* ---------- plots ---------- */
NOINST static u32 count_lines(const u8* d, u32 n) {
  u32 c = 0;
  for (u32 i = 0; i < n; i++) c += d[i] == '\n';
  return c;
}
NOINST static void check_plot(const char* path, const double* want, u32 n, double tol) {
  u32 size, i;
  u8* d = sim_file_data(path, &size);
  char* text;
  if (!d && n) sim_violation("plot", "no plot file was written to %s", path);
  if (count_lines(d, size) != n) sim_violation("plot", "the plot file has %u lines for %u values", count_lines(d, size), n);
  text = (char*)harness_malloc(size + 1);
  if (size) memcpy(text, d, size);
  text[size] = 0;
  char* p = text;
  for (i = 0; i < n; i++) {
    char* e;
    double v = strtod(p, &e);
    if (e == p || *e != '\n') sim_violation("plot", "line %u of a plot file is not one number", i);
    if (!(fabs(v - want[i]) <= tol + 1e-6 * fabs(want[i]))) sim_violation("plot", "line %u of a plot file is %.12g instead of %.12g", i, v, want[i]);
    p = e + 1;
  }
  sim_free(text);
}
extern uint32_t sp_plot_temp_file_index __attribute__((weak));
void scen_plot(void) {
  static const u32 starts[] = { 0, 8, 98, 998, 99998, 99999998, 999999998, 4000000000u };
  char seen[4][64];
  u32 nseen = 0, si;
  u32 n, i, kind, k, commands, before, rounds = OPR(1, 4);
  double *a, *copy, *w;
  sp_time_t *t, *tcopy;
  int faulty = OP(3) != 0, io, al;
  const char* path = "/sim/plot";
  const char* command;
  char used[64];
  sim_faults_setup(FM_HEAP | FM_OPEN | FM_WRITE | FM_CLOSE | FM_ALLOC);
  lib_init(0, CHL, 50);
  u64 mark = sim_heap_mark();
  draw_buffer();
  /* many plots before */
  if (&sp_plot_temp_file_index) sp_plot_temp_file_index = starts[OP(8)];
  for (k = 0; k < rounds; k += 1) {
    n = OP(6) == 5 ? 0 : OP(2) ? OPR(1, 20) : OPR(1, 300);
    kind = OP(7);
    if (kind != 4 && kind != 5 && OP(60) == 59) n = OPR(300, 6000);
    if ((kind == 4 || kind == 5) && !n) n = 1;
    a = harness_malloc(sizeof(double) * (n + !n));
    copy = harness_malloc(sizeof(double) * (n + !n));
    w = harness_malloc(sizeof(double) * (n + !n));
    t = harness_malloc(sizeof(sp_time_t) * (n + !n));
    tcopy = harness_malloc(sizeof(sp_time_t) * (n + !n));
    for (i = 0; i < n; i += 1) {
      a[i] = copy[i] = file_sample(0, i, kind == 4 || kind == 5 ? 0 : OP(2));
      t[i] = tcopy[i] = OP(2) ? i * 1000003u : i;
      w[i] = kind == 1 || kind == 3 ? t[i] : a[i];
    }
    if (kind == 4 || kind == 5) { /* magnitudes of the discrete fourier transform */
      for (i = 0; i < n; i += 1) {
        double re = 0, im = 0;
        for (u32 j = 0; j < n; j += 1) {
          double p = -2 * M_PI * (double)((u64)i * j % n) / n;
          re += a[j] * cos(p);
          im += a[j] * sin(p);
        }
        w[i] = 2 * sqrt(re * re + im * im) / n;
      }
    }
    sim_desc("%splot %u of %u values", k ? "; " : "", kind, n);
    io = sim_io_faults_fired();
    al = sim_alloc_faults_fired();
    sim_last_command(&before);
    snprintf(used, sizeof used, "%s", path);
    if (faulty) sim_faults_on();
    switch (kind) {
    case 0: sp_plot_samples_to_file(a, n, (u8*)path); break;
    case 1: sp_plot_times_to_file(t, n, (u8*)path); break;
    case 2: sp_plot_samples(a, n); break;
    case 3: sp_plot_times(t, n); break;
    case 4: sp_plot_spectrum_to_file(a, n, (u8*)path); break;
    case 5: sp_plot_spectrum(a, n); break;
    case 6: /* an event */
    {
      sp_event_t e;
      tree_reset_history();
      nnodes = 0;
      node* leaf = make_leaf(n + !n, 0);
      leaf->eager = leaf->has_prepare && OP(2);
      leaf->fail_prepare = faulty && leaf->has_prepare && OP(6) == 5;
      if (faulty && OP(8) == 7) leaf->fail_at = OP(n + !n);
      build_event(leaf, &e);
      sim_free(w);
      w = harness_malloc(sizeof(double) * (n + !n));
      for (i = 0; i < n; i += 1) w[i] = leaf_value(leaf->id, 0, i);
      n += !n;
      w[0] = leaf_value(leaf->id, 0, 0);
      status_t s = sp_render_plot(e);
      sim_faults_off();
      if (s.id && sim_alloc_faults_fired() == al && !nfail_reported) sim_violation("unexpected-failure", "plotting an event failed with %d without a fault", s.id);
      if (!s.id && nfail_reported) sim_violation("failure-lost", "the plotted event failed but plotting reported success");
      if (nfail_reported) {
        sim_last_command(&commands);
        if (commands != before) sim_violation("plot", "an event that failed was plotted");
        al -= 1; /* nothing is plotted */
      }
      if (leaf->created && leaf->has_free && leaf->freed != 1) sim_violation("lifecycle", "the plotted event was freed %u times", leaf->freed);
      break;
    }
    }
    sim_faults_off();
    io = sim_io_faults_fired() - io;
    al = sim_alloc_faults_fired() - al;
    check_closed("after plotting");
    for (i = 0; i < n && kind != 6; i += 1)
      if (a[i] != copy[i] || t[i] != tcopy[i]) sim_violation("plot", "plotting changed its input at %u", i);
    if (!io && !al) {
      PROBE(plot_written);
      if (kind != 0 && kind != 1 && kind != 4) {
        /* the command names the file */
        command = sim_last_command(&commands);
        if (commands != before + 1) sim_violation("plot", "plotting ran %u commands", commands - before);
        const char* p = strchr(command, '"');
        const char* q = p ? strchr(p + 1, '"') : 0;
        if (!q || q - p - 1 >= (long)sizeof used) sim_violation("plot", "the plot command names no file: %s", command);
        memcpy(used, p + 1, q - p - 1);
        used[q - p - 1] = 0;
        for (si = 0; si < nseen; si += 1)
          if (!strcmp(seen[si], used)) sim_violation("plot", "two plots use the same file %s", used);
        strcpy(seen[nseen++], used);
        if (command[strlen(command) - 1] != '\'') sim_violation("plot", "the plot command is cut off: %s", command);
      }
      check_plot(used, w, n, 0.00051);
    } else PROBE(plot_failed);
    sim_free(a);
    sim_free(copy);
    sim_free(w);
    sim_free(t);
    sim_free(tcopy);
    sim_disk_reset();
  }
  sim_nontrivial();
  sim_leak_check(mark, "after plotting");
  lib_end("after plotting");
}
