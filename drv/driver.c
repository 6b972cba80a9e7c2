/* Generic API driver: executes scripted histories of public API calls on many decoder instances.
   Request (stdin):  u32 length, then a sequence of ops.   Response (stdout): u32 length, bytes.
   Ops:
    'C' u8 id, u32 ncfg, i32 cfg[ncfg], u8 nblob, {u8 type, u32 len, bytes}*   create
    'B' u8 id, u32 npol, u32 pol[npol], u32 len, bytes                         bind input
    'S' u8 id, u32 n                                                           n API steps
    'X' u8 id                                                                  delete
    'E' u8 id                                                                  execute call before init completes
   Response: sequence of records, each u8 tag, u8 id, u32 len, payload. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/time.h>
#include <impeghd_type_def.h>
#include "impeghd_memory_standards.h"
#include "impeghd_api.h"
#include "impeghd_error_codes.h"

enum { CF_PCM, CF_EFFECT, CF_LSET, CF_LOUD, CF_MHAS, CF_RAW, CF_CICP, CF_PRESET, CF_EXTREND,
       CF_BINAURAL, CF_RESAMP, CF_OUTFS, CF_FAILAT, CF_FILL, CF_MISALIGN, CF_SCRIBBLE, CF_N };

typedef struct {
  int used, created;
  ia_input_config in;
  ia_output_config out;
  uint8_t *blob[16];
  uint32_t bloblen[16];
  uint8_t *data;
  uint32_t len, pos;
  uint32_t *pol;
  uint32_t npol, ipol;
  int finished;
  int fill, misalign, failat, scribble;
  int geo_sent;
  uint32_t extsz;
} inst;

static inst I[32];
static inst *cur;
static long nalloc, nfree, badfree;
#define MAXA 4096
static void *live[MAXA]; static uint32_t livesz[MAXA]; static int liveowner[MAXA]; static void *livebase[MAXA];

static pVOID my_malloc(UWORD32 s, UWORD32 a) {
  long k = nalloc++;
  int i;
  if (cur && cur->failat >= 0) { if (cur->failat == 0) { cur->failat = -1; nalloc--; return NULL; } cur->failat--; }
  (void)k;
  uint32_t mis = cur ? (uint32_t)cur->misalign : 0;
  uint32_t tot = s + a;
  uint8_t *p = malloc((size_t)tot + mis);
  if (!p) return NULL;
  if (cur && cur->fill >= 0) {
    if (cur->fill < 256) memset(p, cur->fill, (size_t)tot + mis);
    else { uint32_t x = (uint32_t)cur->fill * 2654435761u + s; for (size_t j = 0; j < (size_t)tot + mis; j++) { x = x * 1664525u + 1013904223u; p[j] = (uint8_t)(x >> 24); } }
  }
  for (i = 0; i < MAXA; i++) if (!live[i]) { live[i] = p + mis; livebase[i] = p; livesz[i] = tot; liveowner[i] = (int)(cur - I); break; }
  return p + mis;
}
static VOID my_free(pVOID p) {
  int i;
  for (i = 0; i < MAXA; i++) if (live[i] && live[i] == p) { free(livebase[i]); live[i] = 0; nfree++; return; }
  badfree++;
}

static uint8_t *ob; static size_t on, oc;
static void need(size_t k) { if (on + k > oc) { oc = (on + k) * 2 + 65536; ob = realloc(ob, oc); } }
static size_t rec_begin(int tag, int id) { need(6); ob[on] = (uint8_t)tag; ob[on + 1] = (uint8_t)id; on += 6; return on; }
static void rec_put(const void *p, size_t n) { need(n); memcpy(ob + on, p, n); on += n; }
static void rec_end(size_t at) { uint32_t l = (uint32_t)(on - at); memcpy(ob + at - 4, &l, 4); }

static int rd(void *p, size_t n) { size_t g = 0; while (g < n) { size_t k = fread((char *)p + g, 1, n - g, stdin); if (k == 0) return 0; g += k; } return 1; }

static int32_t rdi(uint8_t **p) { int32_t v; memcpy(&v, *p, 4); *p += 4; return v; }

static void refill(inst *t, int32_t want) { (void)t; (void)want; }

static void step(inst *t, int id, int force_exec) {
  uint8_t *ib = t->out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr;
  uint32_t cap = t->out.ui_inp_buf_size;
  uint32_t avail = t->len - t->pos, k;
  int32_t r[20];
  int isinit = !t->out.ui_init_done && !force_exec;
  refill(t, 0);
  if (avail == 0 && !force_exec) { t->finished = 1; return; }
  k = avail > cap ? cap : avail;
  if (t->npol) { uint32_t q = t->pol[t->ipol++ % t->npol]; if (q && q < k) k = q; }
  if (t->scribble) memset(ib, t->scribble & 255, cap);
  memcpy(ib, t->data + t->pos, k);
  t->in.num_inp_bytes = (int32_t)k;
  t->out.num_out_bytes = isinit ? 0 : t->out.num_out_bytes;
  memset(r, 0, sizeof r);
  IA_ERRORCODE e;
  t->out.i_bytes_consumed = 0;
  if (isinit) e = ia_mpegh_dec_init(t->out.pv_ia_process_api_obj, &t->in, &t->out);
  else { t->out.num_out_bytes = 0; e = ia_mpegh_dec_execute(t->out.pv_ia_process_api_obj, &t->in, &t->out); }
  r[0] = isinit; r[1] = (int32_t)e; r[2] = t->out.i_bytes_consumed; r[3] = isinit ? 0 : t->out.num_out_bytes;
  r[4] = (int32_t)t->out.ui_init_done; r[5] = t->out.i_num_chan; r[6] = t->out.i_samp_freq; r[7] = t->out.i_pcm_wd_sz;
  r[8] = t->out.cicp_index; r[9] = t->out.num_speakers; r[10] = (int32_t)k; r[11] = t->out.num_preroll;
  r[12] = t->in.extrn_rend_flag ? t->out.pcm_payload_length : 0; r[13] = t->out.ch_md_payload_length; r[14] = t->out.oam_md_payload_length;
  r[15] = t->out.hoa_md_payload_length; r[16] = t->out.i_loud_norm; r[17] = t->out.i_target_loudness; r[18] = t->out.i_drc_effect; r[19] = (int32_t)t->pos;
  if (force_exec) ; /* the probe does not advance the stream */
  else if (t->out.i_bytes_consumed <= 0 || (uint32_t)t->out.i_bytes_consumed > avail) { if (t->out.i_bytes_consumed <= 0) t->finished = 1; else t->pos = t->len; }
  else t->pos += (uint32_t)t->out.i_bytes_consumed;
  size_t at = rec_begin('s', id);
  rec_put(r, sizeof r);
  if (!isinit && e == 0 && r[3] > 0) {
    uint32_t n = (uint32_t)r[3];
    if (n > t->out.mem_info_table[IA_MEMTYPE_OUTPUT].ui_size) n = t->out.mem_info_table[IA_MEMTYPE_OUTPUT].ui_size;
    rec_put(t->out.mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr, n);
  }
  rec_end(at);
  if (t->in.extrn_rend_flag && !isinit && e == 0) {
    at = rec_begin('x', id);
    int32_t l[4] = { t->out.pcm_payload_length, t->out.ch_md_payload_length, t->out.oam_md_payload_length, t->out.hoa_md_payload_length };
    const uint8_t *b[4] = { t->in.ptr_ext_ren_pcm_buf, t->in.ptr_ext_ren_ch_data_buf, t->in.ptr_ext_ren_oam_data_buf, t->in.ptr_ext_ren_hoa_data_buf };
    for (int q = 0; q < 4; q++) { if (l[q] < 0) l[q] = 0; if ((uint32_t)l[q] > t->extsz) l[q] = (int32_t)t->extsz; }
    rec_put(l, sizeof l);
    for (int q = 0; q < 4; q++) rec_put(b[q], (size_t)l[q]);
    rec_end(at);
  }
  if (isinit && t->out.ui_init_done && !t->geo_sent) {
    int32_t g[9 + 24 * 3];
    t->geo_sent = 1;
    at = rec_begin('g', id);
    g[0] = t->out.num_speakers; g[1] = t->out.spk_layout; g[2] = t->out.cicp_index; g[3] = t->out.is_binaural_rendering;
    g[4] = t->out.oam_data_present; g[5] = t->out.hoa_data_present; g[6] = t->out.ch_data_present; g[7] = t->out.oam_sample_offset; g[8] = t->out.hoa_sample_offset;
    for (int q = 0; q < 24; q++) { g[9 + q * 3] = t->out.is_lfe[q]; g[10 + q * 3] = t->out.azimuth[q]; g[11 + q * 3] = t->out.elevation[q]; }
    rec_put(g, sizeof g);
    rec_end(at);
  }
}

int main(void) {
  int cpu = getenv("VT_CPU") ? atoi(getenv("VT_CPU")) : 60;
  setvbuf(stdin, 0, _IOFBF, 1 << 20);
  for (;;) {
    uint32_t n;
    if (!rd(&n, 4)) return 0;
    uint8_t *buf = malloc((size_t)n + 1), *p = buf, *end = buf + n;
    if (!rd(buf, n)) return 0;
    struct itimerval tv = {{0, 0}, {cpu, 0}}; setitimer(ITIMER_VIRTUAL, &tv, 0);
    on = 0;
    nalloc = nfree = badfree = 0;
    while (p < end) {
      int op = *p++;
      int id = *p++;
      inst *t = &I[id & 31];
      cur = t;
      if (op == 'C') {
        memset(t, 0, sizeof *t);
        uint32_t nc = (uint32_t)rdi(&p), i;
        int32_t c[64] = {0};
        for (i = 0; i < nc; i++) c[i & 63] = rdi(&p);
        uint8_t nb = *p++;
        for (i = 0; i < nb; i++) { int ty = *p++ & 15; uint32_t l = (uint32_t)rdi(&p); t->blob[ty] = malloc(l ? l : 1); memcpy(t->blob[ty], p, l); t->bloblen[ty] = l; p += l; }
        t->used = 1;
        t->in.ui_pcm_wd_sz = (UWORD32)c[CF_PCM]; t->in.ui_effect = c[CF_EFFECT];
        t->in.ui_target_loudness[0] = c[CF_LSET]; t->in.ui_target_loudness[1] = c[CF_LOUD];
        t->in.ui_mhas_flag = c[CF_MHAS]; t->in.ui_raw_flag = c[CF_RAW]; t->in.ui_cicp_layout_idx = c[CF_CICP];
        t->in.i_preset_id = (WORD8)c[CF_PRESET]; t->in.extrn_rend_flag = c[CF_EXTREND]; t->in.binaural_flag = c[CF_BINAURAL];
        t->in.enable_resamp = c[CF_RESAMP]; t->in.out_samp_freq = (UWORD32)c[CF_OUTFS];
        t->failat = c[CF_FAILAT]; t->fill = c[CF_FILL]; t->misalign = c[CF_MISALIGN]; t->scribble = c[CF_SCRIBBLE];
        if (t->blob[1]) { t->in.lsi_info_flag = 1; t->in.ptr_ls_buf = t->blob[1]; t->in.lsi_info_size = (int)t->bloblen[1]; }
        if (t->blob[2]) { t->in.ei_info_flag = 1; t->in.ptr_ei_buf = t->blob[2]; t->in.ei_info_size = (int)t->bloblen[2]; }
        if (t->blob[3]) { t->in.sd_info_flag = 1; t->in.ptr_sd_buf = t->blob[3]; t->in.sd_info_size = (int)t->bloblen[3]; }
        if (t->blob[4]) { t->in.maei_flag = 1; t->in.ptr_maei_buf = t->blob[4]; t->in.maei_len = (int)t->bloblen[4]; }
        if (t->blob[5]) { t->in.maeg_flag = 1; t->in.ptr_maeg_buf = t->blob[5]; t->in.maeg_len = (int)t->bloblen[5]; }
        if (t->blob[6]) { t->in.maes_flag = 1; t->in.ptr_maes_buf = t->blob[6]; t->in.maes_len = (int)t->bloblen[6]; }
        if (t->blob[7]) { t->in.maep_flag = 1; t->in.ptr_maep_buf = t->blob[7]; t->in.maep_len = (int)t->bloblen[7]; }
        if (t->blob[8]) { t->in.ptr_brir_buf = t->blob[8]; t->in.binaural_data_len = (int)t->bloblen[8]; }
        if (t->in.extrn_rend_flag) {
          t->extsz = 1 << 20;
          t->in.ptr_ext_ren_ch_data_buf = calloc(1, t->extsz); t->in.ptr_ext_ren_oam_data_buf = calloc(1, t->extsz);
          t->in.ptr_ext_ren_hoa_data_buf = calloc(1, t->extsz); t->in.ptr_ext_ren_pcm_buf = calloc(1, t->extsz);
        }
        t->out.malloc_mpegh = my_malloc; t->out.free_mpegh = my_free;
        IA_ERRORCODE e = ia_mpegh_dec_create(&t->in, &t->out);
        t->created = (e == 0);
        int32_t r[3] = { (int32_t)e, (int32_t)t->out.malloc_count, (int32_t)t->out.ui_inp_buf_size };
        int bad = 0;
        if (e == 0) for (i = 0; i < 4; i++) {
          uint8_t *m = t->out.mem_info_table[i].mem_ptr; uint32_t sz = t->out.mem_info_table[i].ui_size, al = t->out.mem_info_table[i].ui_alignment;
          int ok = 0;
          for (int q = 0; q < MAXA; q++) if (live[q] && m >= (uint8_t *)live[q] && m + sz <= (uint8_t *)live[q] + livesz[q]) ok = 1;
          if (!ok) bad |= 1;
          if (al && ((uintptr_t)m % al)) bad |= 2;
        }
        size_t at = rec_begin('c', id); rec_put(r, sizeof r); rec_put(&bad, 4);
        rec_put(t->out.p_lib_name ? (char *)t->out.p_lib_name : "?", t->out.p_lib_name ? strlen((char *)t->out.p_lib_name) : 1);
        rec_end(at);
      } else if (op == 'B') {
        uint32_t np = (uint32_t)rdi(&p);
        t->pol = (uint32_t *)malloc(4 * (np + 1)); memcpy(t->pol, p, 4 * np); p += 4 * np; t->npol = np; t->ipol = 0;
        t->len = (uint32_t)rdi(&p); t->data = malloc(t->len ? t->len : 1); memcpy(t->data, p, t->len); p += t->len; t->pos = 0; t->finished = 0;
      } else if (op == 'S') {
        uint32_t k = (uint32_t)rdi(&p);
        if (t->created) while (k-- && !t->finished) step(t, id, 0);
      } else if (op == 'E') {
        if (t->created) step(t, id, 1);
      } else if (op == 'X') {
        if (t->used) {
          IA_ERRORCODE e = ia_mpegh_dec_delete(&t->out);
          int left = 0;
          for (int q = 0; q < MAXA; q++) if (live[q] && liveowner[q] == (id & 31)) { left++; free(livebase[q]); live[q] = 0; }
          for (int q = 0; q < 16; q++) free(t->blob[q]);
          free(t->data); free(t->pol);
          if (t->in.extrn_rend_flag) { free(t->in.ptr_ext_ren_ch_data_buf); free(t->in.ptr_ext_ren_oam_data_buf); free(t->in.ptr_ext_ren_hoa_data_buf); free(t->in.ptr_ext_ren_pcm_buf); }
          int32_t r[4] = { (int32_t)e, left, (int32_t)badfree, (int32_t)(nalloc - nfree) };
          memset(t, 0, sizeof *t);
          size_t at = rec_begin('d', id); rec_put(r, sizeof r); rec_end(at);
        }
      } else break;
    }
    free(buf);
    uint32_t l = (uint32_t)on;
    fwrite(&l, 4, 1, stdout); fwrite(ob, 1, on, stdout); fflush(stdout);
  }
}
