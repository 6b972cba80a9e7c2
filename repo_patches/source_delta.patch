From 1aa60d0f18671cdce67f2e9ea31eedc1d0cda292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 01/70] fix: read common TNS data with the window information
 of the element's own channel

---
 decoder/ia_core_coder_ext_ch_ele.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index 5eec955..5be4bba 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -1358,7 +1358,7 @@ ia_core_coder_data(WORD32 id, ia_usac_data_struct *usac_data, WORD32 elem_idx, W
       }
       else
       {
-        err = ia_core_coder_read_tns_u(usac_data->pstr_sfb_info[0], &usac_data->pstr_tns[left][0],
+        err = ia_core_coder_read_tns_u(usac_data->pstr_sfb_info[left], &usac_data->pstr_tns[left][0],
                                        it_bit_buff);
         if (err != IA_MPEGH_DEC_NO_ERROR)
         {
-- 
2.43.0


From 50db86e050ea204455312c2b2f51ef767a200d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 02/70] fix: init never reports more bytes consumed than were
 supplied

---
 decoder/impeghd_api.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6414ca8..c22e9f1 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -836,7 +836,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
-  if (pstr_output_config->i_bytes_consumed == 0)
+  if (pstr_output_config->i_bytes_consumed > pstr_input_config->num_inp_bytes)
+  {
+    /* a refused packet may announce more bytes than were supplied */
+    pstr_output_config->i_bytes_consumed = pstr_input_config->num_inp_bytes;
+  }
+  if (pstr_output_config->i_bytes_consumed <= 0)
   {
     pstr_output_config->i_bytes_consumed = 1;
   }
-- 
2.43.0


From 683deeea80a6026e318fd310b260cd52a6f86c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 03/70] fix: a refused access unit never reports more bytes
 consumed than were supplied

---
 decoder/impeghd_api.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index c22e9f1..a8cd89a 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1053,7 +1053,12 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
 
   if (err_code != IA_MPEGH_DEC_NO_ERROR)
   {
-    if (p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed == 0)
+    if (p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed > pstr_input_config->num_inp_bytes)
+    {
+      /* the bit buffer may still describe the input of an earlier call */
+      p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = pstr_input_config->num_inp_bytes;
+    }
+    if (p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed <= 0)
     {
       p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = 1;
     }
-- 
2.43.0


From b4cb43a18c759a9e683b29d1cc0d06301c60e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 04/70] fix: saturate positive 32-bit PCM at the largest float
 below 2^31

2147483647.0f is 2^31, which is outside the range of WORD32: converting it is
undefined and gives INT_MIN on x86 unless the compiler happens to fold it.
---
 decoder/ia_core_coder_cnst.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_cnst.h b/decoder/ia_core_coder_cnst.h
index 5a9af68..4419f2f 100644
--- a/decoder/ia_core_coder_cnst.h
+++ b/decoder/ia_core_coder_cnst.h
@@ -49,7 +49,7 @@
 /* Below values will be used for writing */
 /* 32-bit PCM data                       */
 #define MIN_FLT_VAL_32 (-2147483647.0f)
-#define MAX_FLT_VAL_32 (2147483647.0f)
+#define MAX_FLT_VAL_32 (2147483520.0f)
 #define MUL_FAC_PCM_32 (65536)
 
 #define ESC_VAL_BITS_2 3      // 0000 0011
-- 
2.43.0


From a372622ec7b914fe3cf7ac07f0b2b57270d580e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 05/70] fix: accept target layout 20, the last documented one

The range check was exclusive: the request was dropped, and with it every
setting that is read after it.
---
 decoder/impeghd_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index a8cd89a..ff6355b 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -257,7 +257,7 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
   }
 
   if ((ptr_input_config->ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL) &&
-      (ptr_input_config->ui_cicp_layout_idx < NUM_LS_CFGS))
+      (ptr_input_config->ui_cicp_layout_idx <= NUM_LS_CFGS))
   {
     p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx = ptr_input_config->ui_cicp_layout_idx;
   }
-- 
2.43.0


From 2a42a440e3faca2f159e43c50381fbddd81b9558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:48 +0000
Subject: [PATCH 06/70] fix: use the new sampling rate for the output after a
 configuration change

---
 decoder/impeghd_api.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index ff6355b..4b271b8 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1191,6 +1191,11 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->p_state_mpeghd->decode_create_done = 0;
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (!p_obj_mpegh_dec->mpeghd_config.resample_output)
+  {
+    /* without resampling the output has the sampling rate of the new configuration */
+    p_obj_mpegh_dec->mpeghd_config.out_samp_freq = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
+  }
   p_obj_mpegh_dec->p_state_mpeghd->flush = 1;
   return err;
 }
-- 
2.43.0


From 72bf942b8d5a2fc81fe66ff5742730c22a1f78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:48 +0000
Subject: [PATCH 07/70] fix: clear the whole renderer scratch used to build the
 format conversion matrix

---
 decoder/ia_core_coder_decode_main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 137f834..f27e797 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -663,7 +663,8 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       ptr_scratch += sizeof(*pstr_obj_renderer);
       ia_oam_dec_config_struct *p_obj_md_cfg = (ia_oam_dec_config_struct *)ptr_scratch;
 
-      memset(&pstr_obj_renderer->str_obj_md_dec_state, 0, sizeof(*p_obj_md_cfg));
+      memset(pstr_obj_renderer, 0, sizeof(*pstr_obj_renderer));
+      memset(p_obj_md_cfg, 0, sizeof(*p_obj_md_cfg));
 
       pstr_obj_renderer->str_obj_md_dec_state.p_obj_md_cfg = p_obj_md_cfg;
       pstr_obj_renderer->str_obj_md_dec_state.num_objects = num_out_chn;
-- 
2.43.0


From 35c6afde62a71afc9067e1684cac20ca5397ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:22 +0000
Subject: [PATCH 08/70] fix: keep to the length of signal-group and
 compatible-profile configuration extensions

---
 decoder/ia_core_coder_init_config.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c32dbc1..6e86d7a 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -693,7 +693,7 @@ static VOID impeghd_sig_group_info(ia_bit_buf_struct *it_bit_buff, ia_signals_3d
 {
   WORD32 grp;
 
-  for (grp = 0; grp <= (WORD32)ptr_signal_3d->num_sig_group; grp++)
+  for (grp = 0; grp < (WORD32)ptr_signal_3d->num_sig_group; grp++)
   {
     ptr_signal_3d->group_priority[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 3);
     ptr_signal_3d->fixed_position[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 1);
@@ -932,7 +932,14 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     case ID_CONFIG_EXT_COMPATIBLE_PROFILELVL_SET:
     {
       pstr_usac_decoder_config->compat_profile_cfg_present = 1;
+      cnt_bits = it_bit_buff->cnt_bits;
       impeghd_compatible_profile_level_set(it_bit_buff, &pstr_usac_decoder_config->str_compatible_profile_config);
+      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
+      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
+      {
+        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
+      }
       break;
     }
     case ID_CONFIG_EXT_HOA_MATRIX:
@@ -1027,8 +1034,15 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     }
     case ID_CONFIG_EXT_SIG_GROUP_INFO:
     {
+      cnt_bits = it_bit_buff->cnt_bits;
       impeghd_sig_group_info(it_bit_buff, ptr_signal_3d);
       ptr_signal_3d->signal_grp_info_present = 1;
+      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
+      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
+      {
+        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
+      }
       break;
     }
     case ID_CONFIG_EXT_FILL:
-- 
2.43.0


From e23bac6fb6a1efa6994359b4f8ad2f70843efab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:22 +0000
Subject: [PATCH 09/70] fix: do not require a format conversion for layouts
 without loudspeaker positions

---
 decoder/ia_core_coder_init_config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 6e86d7a..eb5142d 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1617,7 +1617,8 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
     {
       pstr_usac_conf->signals_3d.format_converter_enable = 1;
     }
-    if ((mpeghd_state_struct->ch_config !=
+    if ((impgehd_cicp_get_num_ls[ui_cicp_layout_idx] != 0) &&
+        (mpeghd_state_struct->ch_config !=
          (UWORD32)(impgehd_cicp_get_num_ls[ui_cicp_layout_idx])) &&
         (pstr_usac_conf->str_usac_dec_config.hoa_matrix_ext_config_present != 1) &&
         (mpeghd_state_struct->ch_config != 0) &&
-- 
2.43.0


From 7f8229f7e54d12bde1a235e1eb24d28f91d98f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:22 +0000
Subject: [PATCH 10/70] fix: order of the polyphase branches in the output
 resampler

---
 decoder/impeghd_resampler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_resampler.c b/decoder/impeghd_resampler.c
index a024d67..f14f859 100644
--- a/decoder/impeghd_resampler.c
+++ b/decoder/impeghd_resampler.c
@@ -123,7 +123,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[idx3] += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
         ptr_filt_coef++;
       }
       ptr_delay++;
@@ -134,7 +134,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[idx3] += ia_mul_flt(*ptr_temp, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] += ia_mul_flt(*ptr_temp, *ptr_filt_coef);
         ptr_filt_coef++;
       }
       ptr_temp++;
-- 
2.43.0


From f6f1d17c65eb7b076bc13b33f36ffa88604ea5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 11/70] fix: apply the loudness gain to the signal that is
 resampled, within one frame

---
 decoder/ia_core_coder_decode_main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index f27e797..bcc5811 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1514,6 +1514,18 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
   {
     ptr_audio_buff[i] = &pstr_dec_data->str_usac_data.time_sample_vector[i][0];
   }
+  if (gain_db_loudness_normalization != 0.0f)
+  {
+
+    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
+    for (i = 0; i < *ptr_num_out_chnl; i++)
+    {
+      for (j = 0; j < frame_length; j++)
+      {
+        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
+      }
+    }
+  }
   if (ptr_config->resample_output)
   {
     FLOAT32 *ptr_resamp_scratch =
@@ -1531,18 +1543,6 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
     pstr_mpegh_dec->ui_out_bytes =
         frame_length * (*ptr_num_out_chnl) * (ptr_config->ui_pcm_wdsz >> 3);
   }
-  if (gain_db_loudness_normalization != 0.0f)
-  {
-
-    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
-    for (i = 0; i < *ptr_num_out_chnl; i++)
-    {
-      for (j = 0; j < frame_length; j++)
-      {
-        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
-      }
-    }
-  }
   if (peak_lim_flag)
   {
     impegh_dec_peak_limiter(ptr_config, pstr_dec_data, ptr_num_out_chnl, ptr_out_buf,
-- 
2.43.0


From dab778d052b8a20e62c291bd0606007350da7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:45 +0000
Subject: [PATCH 12/70] fix: bound the counts read from mae boxes by the arrays
 that hold them

---
 decoder/impeghd_api.c            | 21 ++++++++++--
 decoder/impeghd_mae_mp4_intrfc.c | 56 +++++++++++++++++++++++---------
 decoder/impeghd_mae_mp4_intrfc.h | 12 +++----
 3 files changed, 64 insertions(+), 25 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 4b271b8..0b2a1ba 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -723,7 +723,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maeg_buf,
                                       pstr_input_config->maeg_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maeg(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maeg(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
   if (pstr_input_config->maes_flag == 1 && pstr_input_config->ptr_maes_buf != NULL)
@@ -741,7 +746,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maes_buf,
                                       pstr_input_config->maes_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maes(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maes(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
   if (pstr_input_config->maep_flag == 1 && pstr_input_config->ptr_maep_buf != NULL)
@@ -759,7 +769,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maep_buf,
                                       pstr_input_config->maep_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maep(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maep(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
 
diff --git a/decoder/impeghd_mae_mp4_intrfc.c b/decoder/impeghd_mae_mp4_intrfc.c
index 8876eae..88c0bf5 100644
--- a/decoder/impeghd_mae_mp4_intrfc.c
+++ b/decoder/impeghd_mae_mp4_intrfc.c
@@ -37,6 +37,7 @@
 #include "ia_core_coder_cnst.h"
 #include "impeghd_memory_standards.h"
 #include "impeghd_mhas_parse.h"
+#include "impeghd_error_codes.h"
 
 /**
  *  impeghd_mp4_get_mael
@@ -83,15 +84,16 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
     }
     ptr_mae_audio_scene_info->group_desc_data.descr_data[j][0][k] = 0;
   }
-  ptr_mae_audio_scene_info->group_desc_data.num_descr_languages[j] = 1;
-  ptr_mae_audio_scene_info->group_desc_data.descr_language[j][0] = 0;
-
-  ptr_mae_audio_scene_info->group_desc_data.grp_id[j] = 0;
-  ptr_mae_audio_scene_info->group_desc_data.descr_data_length[j][0] = 1;
-
-  for (k = 0; k < ptr_mae_audio_scene_info->group_desc_data.descr_data_length[j][0] + 1; k++)
+  if (j < MAX_NUM_DESCRIPTOIN_BLOCKS)
   {
-    ptr_mae_audio_scene_info->group_desc_data.descr_data[j][0][k] = 0;
+    ptr_mae_audio_scene_info->group_desc_data.num_descr_languages[j] = 1;
+    ptr_mae_audio_scene_info->group_desc_data.descr_language[j][0] = 0;
+    ptr_mae_audio_scene_info->group_desc_data.grp_id[j] = 0;
+    ptr_mae_audio_scene_info->group_desc_data.descr_data_length[j][0] = 1;
+    for (k = 0; k < ptr_mae_audio_scene_info->group_desc_data.descr_data_length[j][0] + 1; k++)
+    {
+      ptr_mae_audio_scene_info->group_desc_data.descr_data[j][0][k] = 0;
+    }
   }
 
   ia_core_coder_read_bits_buf(ptr_read_buff, 3); // reserved bits
@@ -165,14 +167,19 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
  *
  *
  */
-VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 i, j, num_conditions, num_group_presets;
   ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
   ptr_mae_audio_scene_info->num_group_presets =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_group_presets = ptr_mae_audio_scene_info->num_group_presets;
+  if (num_group_presets > MAX_NUM_GROUPS_PRESETS)
+  {
+    ptr_mae_audio_scene_info->num_group_presets = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS;
+  }
   for (i = 0; i < num_group_presets; i++)
   {
     ia_core_coder_read_bits_buf(ptr_read_buff, 3); // reserved bits
@@ -182,9 +189,13 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
     ia_core_coder_read_bits_buf(ptr_read_buff, 3); // reserved bits
     ptr_mae_audio_scene_info->group_presets_definition[i].preset_kind =
         ia_core_coder_read_bits_buf(ptr_read_buff, 5);
+    num_conditions = ia_core_coder_read_bits_buf(ptr_read_buff, 8);
+    if (num_conditions > MAX_GROUP_PRESET_NUM_CONDITIONS)
+    {
+      return IA_MPEGH_DEC_INIT_FATAL_INVALID_PR_GRP_NUM_COND;
+    }
     ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions =
-        ia_core_coder_read_bits_buf(ptr_read_buff, 8);
-    num_conditions = ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions;
+        (WORD8)num_conditions;
     for (j = 0; j < num_conditions; j++)
     {
       ptr_mae_audio_scene_info->group_presets_definition[i].reference_id[j] =
@@ -225,6 +236,7 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
       }
     }
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maes
@@ -237,8 +249,8 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
  *
  *
  */
-VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 num_switch_groups, i, j;
 
@@ -246,6 +258,11 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
   ptr_mae_audio_scene_info->num_switch_groups =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_switch_groups = ptr_mae_audio_scene_info->num_switch_groups;
+  if (num_switch_groups > MAX_NUM_SWITCH_GROUPS)
+  {
+    ptr_mae_audio_scene_info->num_switch_groups = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_SWITCH_GROUPS;
+  }
   for (i = 0; i < num_switch_groups; i++)
   {
     ptr_mae_audio_scene_info->switch_group_definition[i].allow_on_off = 0;
@@ -269,6 +286,7 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
     ptr_mae_audio_scene_info->switch_group_definition[i].default_group_id =
         ia_core_coder_read_bits_buf(ptr_read_buff, 7); // default id
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maeg
@@ -281,8 +299,8 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
  *
  *
  */
-VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 num_grps;
   ptr_mae_audio_scene_info->main_stream_flag = 1;
@@ -293,6 +311,11 @@ VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
   ptr_mae_audio_scene_info->num_groups =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_grps = ptr_mae_audio_scene_info->num_groups;
+  if (num_grps > MAX_NUM_GROUPS)
+  {
+    ptr_mae_audio_scene_info->num_groups = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUP;
+  }
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
     ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
@@ -348,4 +371,5 @@ VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
   }
   ptr_mae_audio_scene_info->group_definition[0].start_id = 0;
   ptr_mae_audio_scene_info->group_definition[1].start_id = 2;
+  return IA_MPEGH_DEC_NO_ERROR;
 }
diff --git a/decoder/impeghd_mae_mp4_intrfc.h b/decoder/impeghd_mae_mp4_intrfc.h
index a7f774e..8c5d9a8 100644
--- a/decoder/impeghd_mae_mp4_intrfc.h
+++ b/decoder/impeghd_mae_mp4_intrfc.h
@@ -37,11 +37,11 @@
 
 VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
                           ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
 
 #endif /* IMPEGHD_MAE_INTRFC_H */
\ No newline at end of file
-- 
2.43.0


From 7d898bb96167e35ca3211e2d5274f2c80efddf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:52 +0000
Subject: [PATCH 13/70] fix: keep configuration packets of any size the input
 buffer can hold

---
 decoder/ia_core_coder_config.h       | 3 ++-
 decoder/ia_core_coder_decode_main.c  | 2 +-
 decoder/ia_core_coder_headerdecode.c | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_config.h b/decoder/ia_core_coder_config.h
index 20492bd..8106147 100644
--- a/decoder/ia_core_coder_config.h
+++ b/decoder/ia_core_coder_config.h
@@ -276,7 +276,8 @@ typedef struct
 #define DOWNMIX_COEFF_COUNT_MAX (32 * 32)
 #define MAX_AUDIO_PREROLLS 1
 #define MAX_EXT_ELE_PAYLOAD (1536)
-#define MAX_CFG_DATA_LENGTH (768)
+/* a configuration packet can be as large as the input buffer (IN_BUF_SIZE) */
+#define MAX_CFG_DATA_LENGTH (768 * 24 + 128)
 #define MEASUREMENT_COUNT_MAX 16
 #define MAX_INTERP_BUF_STRUCT_SIZE                                                               \
   (2 * sizeof(ia_drc_node_struct) +                                                              \
diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index bcc5811..d06fae3 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2540,12 +2540,12 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
           WORD32 bit_pos = pstr_dec_data->dec_bit_buf.bit_pos;
           WORD32 cnt_bits = pstr_dec_data->dec_bit_buf.cnt_bits;
           UWORD8 *ptr_read_next = pstr_dec_data->dec_bit_buf.ptr_read_next;
-          mpegh_dec_handle->prev_cfg_len = pac_info.packet_length;
           for (i = 0; i < pac_info.packet_length; i++)
           {
             mpegh_dec_handle->prev_cfg_data[i] =
                 ia_core_coder_read_bits_buf(&pstr_dec_data->dec_bit_buf, 8);
           }
+          mpegh_dec_handle->prev_cfg_len = pac_info.packet_length;
           pstr_dec_data->dec_bit_buf.bit_pos = bit_pos;
           pstr_dec_data->dec_bit_buf.cnt_bits = cnt_bits;
           pstr_dec_data->dec_bit_buf.ptr_read_next = ptr_read_next;
diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index c34b318..0645d72 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -192,11 +192,11 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         WORD32 bit_pos = handle_bit_buff->bit_pos;
         WORD32 cnt_bits = handle_bit_buff->cnt_bits;
         UWORD8 *ptr_read_next = handle_bit_buff->ptr_read_next;
-        mpeghd_state_struct->prev_cfg_len = info.packet_length;
         for (i = 0; i < info.packet_length; i++)
         {
           mpeghd_state_struct->prev_cfg_data[i] = ia_core_coder_read_bits_buf(handle_bit_buff, 8);
         }
+        mpeghd_state_struct->prev_cfg_len = info.packet_length;
         handle_bit_buff->bit_pos = bit_pos;
         handle_bit_buff->cnt_bits = cnt_bits;
         handle_bit_buff->ptr_read_next = ptr_read_next;
-- 
2.43.0


From fdf99fd33cba25ba80ec00656df8be910877ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 14/70] fix: take loudspeaker positions from the loudspeaker
 table, and refuse unknown ones

---
 decoder/ia_core_coder_init_config.c      | 58 +++++++++++++-----------
 decoder/impeghd_ele_interaction_intrfc.c | 17 ++++++-
 2 files changed, 46 insertions(+), 29 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index eb5142d..f7afde3 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1746,6 +1746,7 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
                                        ia_interface_speaker_config_3d *spk_config_3d)
 {
   UWORD32 i;
+  IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   spk_config_3d->spk_layout_type = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 2);
   if (spk_config_3d->spk_layout_type == 0)
@@ -1780,8 +1781,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     }
     }
   }
-  impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
-                               &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  err = impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
+                                     &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  if (err != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err;
+  }
 
   spk_config_3d->num_speakers = spk_config_3d->num_ch + spk_config_3d->num_lfes;
 
@@ -1916,12 +1921,11 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
                                           WORD32 *num_lfes)
 {
   UWORD32 i;
-  ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-  WORD32 in_num_channels, in_num_lfes;
+  const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry;
   if (speaker_config_3d->spk_layout_type == 0)
   {
-    impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx, ptr_geometry,
-                                          num_channels, num_lfes);
+    return impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx,
+                                                 ptr_geometry, num_channels, num_lfes);
   }
   else if (speaker_config_3d->spk_layout_type < 3)
   {
@@ -1944,18 +1948,19 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
         }
         else
         {
-          const WORD32 **in_channel_names;
-          impeghd_cicpidx_2_ls_geometry(
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx,
-              (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i], &in_num_channels,
-              &in_num_lfes, (const WORD32 **)&in_channel_names);
-          ptr_geometry[i].cicp_loudspeaker_idx =
+          WORD32 spk_idx =
               speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-          ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+          if (spk_idx >= CICP_MAX_CH)
+          {
+            return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+          }
+          ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[spk_idx];
+          ptr_geometry[i].cicp_loudspeaker_idx = spk_idx;
+          ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
           ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         }
         if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe != 0)
         {
@@ -1971,18 +1976,17 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
       *num_channels = speaker_config_3d->num_speakers;
       for (i = 0; i < speaker_config_3d->num_speakers; i++)
       {
-        const WORD32 **in_channel_names;
-        impeghd_cicpidx_2_ls_geometry(speaker_config_3d->cicp_spk_idx[i],
-                                      (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i],
-                                      &in_num_channels, &in_num_lfes,
-                                      (const WORD32 **)&in_channel_names);
-        ptr_geometry[i].cicp_loudspeaker_idx =
-            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-        ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+        if (speaker_config_3d->cicp_spk_idx[i] >= CICP_MAX_CH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+        }
+        ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[speaker_config_3d->cicp_spk_idx[i]];
+        ptr_geometry[i].cicp_loudspeaker_idx = speaker_config_3d->cicp_spk_idx[i];
+        ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
         ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
             (speaker_config_3d->cicp_spk_idx[i] == 26))
         {
diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index d376745..60a8d32 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -105,8 +105,17 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
 {
   UWORD32 ld_spk;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
+  IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
-  impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (num_loudspk > MAX_NUM_SPEAKERS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+  }
+  err_code = impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err_code;
+  }
   has_loud_spk_dist = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   has_loud_spk_calibration_gain = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   pstr_local_setup_data->use_tracking_mode = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -566,7 +575,11 @@ IA_ERRORCODE impeghd_3da_local_setup_information(ia_bit_buf_struct *ptr_bit_buf,
     }
     break;
   case 0:
-    impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    err_code = impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
     impeghd_loud_spk_inv_quant(pstr_local_setup_data);
     break;
   }
-- 
2.43.0


From 1679aeb521473546e8ccf3e364afa39164c1bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 15/70] fix: keep flexible loudspeaker descriptions within the
 announced number, and report bad ones

---
 decoder/ia_core_coder_init_config.c | 66 +++++++++++++++++------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index f7afde3..b812944 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1092,6 +1092,8 @@ static IA_ERRORCODE impeghd_spk_description(VOID *buf_handle, ia_flex_spk_cfg_st
 {
   WORD32 az_ang_idx_to_deg;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
+  pstr_spk_desc->az_direction = 0;
+  pstr_spk_desc->el_direction = 0;
   pstr_spk_desc->is_cicp_spk_idx = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 1);
 
   if (!pstr_spk_desc->is_cicp_spk_idx)
@@ -1177,15 +1179,20 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                             ia_flex_spk_data_str *pstr_flex_spk_data,
                                             WORD32 num_spk)
 {
-  WORD32 i = 0, in_num_channels = 0, in_num_lfes = 0, azimuth;
+  WORD32 i = 0, azimuth;
+  IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   pstr_flex_spk_data->angular_precision = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 1);
 
   while (i < num_spk)
   {
     azimuth = 0;
-    impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
-                            pstr_flex_spk_data->angular_precision);
+    err = impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
+                                  pstr_flex_spk_data->angular_precision);
+    if (err != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err;
+    }
 
     if (!(pstr_flex_spk_data->str_flex_spk_descr[i].is_cicp_spk_idx))
     {
@@ -1194,23 +1201,14 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                        pstr_flex_spk_data->angular_precision);
       pstr_flex_spk_data->str_flex_spk_descr[i].az_angle_idx = azimuth;
     }
-    else if ((pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx < NUM_LS_CFGS) &&
-             (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 0) &&
-             (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 8))
+    else if (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx < CICP_MAX_CH)
     {
-      const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-
-      ptr_cicp_ls_geometry[i] =
-          &ia_cicp_ls_geo_tbls[pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx];
-      if (!ptr_cicp_ls_geometry[i]->lfe_flag)
-      {
-        in_num_channels++;
-      }
-      else
-      {
-        in_num_lfes++;
-      }
-      azimuth = (WORD32)(ptr_cicp_ls_geometry[i]->ls_azimuth);
+      azimuth = (WORD32)(
+          ia_cicp_ls_geo_tbls[pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx].ls_azimuth);
+    }
+    else
+    {
+      return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
     }
 
     if ((azimuth != 0) && (azimuth != 180))
@@ -1219,6 +1217,10 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
       if (pstr_flex_spk_data->also_add_symetric_pair)
       {
         i++;
+        if (i >= num_spk)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+        }
         pstr_flex_spk_data->str_flex_spk_descr[i] = pstr_flex_spk_data->str_flex_spk_descr[i - 1];
         pstr_flex_spk_data->str_flex_spk_descr[i].az_direction =
             1 - pstr_flex_spk_data->str_flex_spk_descr[i].az_direction;
@@ -1322,9 +1324,13 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
     }
     if (pstr_audio_specific_config->ref_spk_layout.spk_layout_type == 2)
     {
-      impeghd_flexispk_config(it_bit_buff,
-                              &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
-                              pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      err = impeghd_flexispk_config(it_bit_buff,
+                                    &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
+                                    pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        return err;
+      }
       pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx =
           pstr_audio_specific_config->ref_spk_layout.num_speakers;
       if (pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx <= 0 ||
@@ -1452,8 +1458,12 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           {
           case 2:
           {
-            impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
-                                    speaker_config_3d->num_speakers);
+            err = impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
+                                          speaker_config_3d->num_speakers);
+            if (err != IA_MPEGH_DEC_NO_ERROR)
+            {
+              return err;
+            }
             break;
           }
           case 1:
@@ -1767,8 +1777,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     {
     case 2:
     {
-      impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
-                              spk_config_3d->num_speakers);
+      err = impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
+                                    spk_config_3d->num_speakers);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        return err;
+      }
       break;
     }
     case 1:
-- 
2.43.0


From a63d27949c7a9062fc1f1a3a12ddd62df63df259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 16/70] fix: count the LFEs of a loudspeaker list by
 loudspeaker

---
 decoder/impeghd_obj_ren_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 3e9d85d..0006296 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -150,7 +150,7 @@ static IA_ERRORCODE impeghd_flex_spk_2_ls_geometry(ia_cicp_ls_geo_str *array_cic
       pp_cicp_ls_geometry[i]->ls_azimuth_start = ia_cicp_ls_geo_tbls[idx].ls_azimuth_start;
       pp_cicp_ls_geometry[i]->ls_azimuth_end = ia_cicp_ls_geo_tbls[idx].ls_azimuth_end;
       pp_cicp_ls_geometry[i]->lfe_flag = ia_cicp_ls_geo_tbls[idx].lfe_flag;
-      *num_lfe += ptr_flex_spk->str_flex_spk_descr[idx].is_lfe;
+      *num_lfe += ia_cicp_ls_geo_tbls[idx].lfe_flag;
     }
   }
   return 0;
-- 
2.43.0


From 9ea50ebb4eaa309ac07cde91661833c3b8e03ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 17/70] fix: do not form pointers outside the resampler's
 history

---
 decoder/impeghd_resampler.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/decoder/impeghd_resampler.c b/decoder/impeghd_resampler.c
index f14f859..0e3e8ed 100644
--- a/decoder/impeghd_resampler.c
+++ b/decoder/impeghd_resampler.c
@@ -95,7 +95,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
 {
   WORD32 idx1, idx2, idx3, fac_down, fac_up;
   FLOAT32 *ptr_inp_l, *ptr_out_l;
-  FLOAT32 *ptr_poly_filt_mem, *ptr_temp, *ptr_delay;
+  FLOAT32 *ptr_poly_filt_mem, *ptr_temp;
   FLOAT32 poly_filt_outputs[RESAMPLE_MAX_RATIO] = {0};
   const FLOAT32 *ptr_resamp_filt_tbl = &impeghd_resampler_filter[0];
 
@@ -116,17 +116,16 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
   for (idx1 = 0; idx1 < (pstr_resampler->input_length); idx1++)
   {
     const FLOAT32 *ptr_filt_coef = ptr_resamp_filt_tbl;
-    ptr_delay = &pstr_resampler->delay_samples_upsamp[idx1];
     ia_core_coder_memset(poly_filt_outputs, RESAMPLE_MAX_RATIO);
 
     for (idx2 = 0; (idx1 + idx2) < (RESAMPLE_DELAY / fac_up); idx2++)
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[fac_up - 1 - idx3] += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] += ia_mul_flt(
+            pstr_resampler->delay_samples_upsamp[idx1 + idx2], *ptr_filt_coef);
         ptr_filt_coef++;
       }
-      ptr_delay++;
     }
 
     ptr_temp = &ptr_input[idx1 + idx2 - (RESAMPLE_DELAY / fac_up)];
@@ -165,7 +164,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
 
   if (fac_down == 2)
   {
-    FLOAT32 mac = 0, *ptr_temp, *ptr_delay;
+    FLOAT32 mac = 0, *ptr_temp;
     WORD32 idx2 = 0;
     ptr_inp_l = ptr_scratch;
     ptr_out_l = ptr_output;
@@ -175,11 +174,9 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
       const FLOAT32 *ptr_filt_coef = &impeghd_resampler_filter[0];
 
       mac = 0;
-      ptr_delay = &pstr_resampler->delay_samples[idx1];
       for (idx2 = 0; idx1 + idx2 < RESAMPLE_DELAY; idx2++)
       {
-        mac += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
-        ptr_delay++;
+        mac += ia_mul_flt(pstr_resampler->delay_samples[idx1 + idx2], *ptr_filt_coef);
         ptr_filt_coef++;
       }
 
-- 
2.43.0


From 80f346e3f8da5f69d4c7c8b8282d49195d4c7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 18/70] fix: DRC set pre-selection: keep the sets that passed
 the output peak level filter

---
 ...d_drc_selection_process_drcset_selection.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index 6a12922..1f3072a 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -1231,8 +1231,9 @@ IA_ERRORCODE impd_drc_set_pre_selection(
     omit_preselection_based_on_requested_group_id = 0;
     for (k = 0; k < selection_candidate_step_2_count; k++)
     {
-      str_drc_instruction_str = &(
-          pstr_drc_config->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+      str_drc_instruction_str =
+          &(pstr_drc_config
+                ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
       if (str_drc_instruction_str->drc_instructions_type == 3)
       {
 
@@ -1241,7 +1242,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
           if (str_drc_instruction_str->mae_group_preset_id ==
               pstr_drc_sel_proc_params_struct->group_preset_id_requested[i])
           {
-            memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+            memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                    sizeof(ia_drc_selection_candidate_info_struct));
             omit_preselection_based_on_requested_group_id = 1;
             n++;
@@ -1251,7 +1252,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       else if (str_drc_instruction_str->drc_instructions_type == 0 ||
                str_drc_instruction_str->drc_instructions_type == 2)
       {
-        memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+        memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                sizeof(ia_drc_selection_candidate_info_struct));
         n++;
       }
@@ -1264,10 +1265,10 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       {
         str_drc_instruction_str =
             &(pstr_drc_config
-                  ->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+                  ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
         if (str_drc_instruction_str->drc_instructions_type == 0)
         {
-          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                  sizeof(ia_drc_selection_candidate_info_struct));
           n++;
         }
@@ -1278,7 +1279,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
             if (str_drc_instruction_str->mae_group_id ==
                 pstr_drc_sel_proc_params_struct->group_id_requested[i])
             {
-              memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+              memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                      sizeof(ia_drc_selection_candidate_info_struct));
               n++;
             }
@@ -1294,11 +1295,11 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       {
         str_drc_instruction_str =
             &(pstr_drc_config
-                  ->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+                  ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
         if (str_drc_instruction_str->drc_instructions_type == 0 ||
             str_drc_instruction_str->drc_instructions_type == 3)
         {
-          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
+          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info_step_2[k],
                  sizeof(ia_drc_selection_candidate_info_struct));
           n++;
         }
-- 
2.43.0


From 111bb2309ea61806e43a7495d2aa68154b3b5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 19/70] fix: loudness normalization uses the gain of the
 selected DRC set

---
 decoder/impd_drc_sel_proc_drc_set_sel.h               | 1 +
 decoder/impd_drc_selection_process.c                  | 1 +
 decoder/impd_drc_selection_process_drcset_selection.c | 4 ++--
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder/impd_drc_sel_proc_drc_set_sel.h b/decoder/impd_drc_sel_proc_drc_set_sel.h
index d32fa62..ac8c98e 100644
--- a/decoder/impd_drc_sel_proc_drc_set_sel.h
+++ b/decoder/impd_drc_sel_proc_drc_set_sel.h
@@ -49,6 +49,7 @@ typedef struct
   WORD32 eq_set_id;
 
   FLOAT32 output_peak_level;
+  FLOAT32 loud_norm_gain_db;
   FLOAT32 loud_norm_db_gain_adjust;
   FLOAT32 output_loudness;
   FLOAT32 mixing_level;
diff --git a/decoder/impd_drc_selection_process.c b/decoder/impd_drc_selection_process.c
index e9bef38..e135f73 100644
--- a/decoder/impd_drc_selection_process.c
+++ b/decoder/impd_drc_selection_process.c
@@ -341,6 +341,7 @@ static IA_ERRORCODE impd_select_drc_set(ia_drc_sel_pro_struct *pstr_drc_uni_sel_
           .drc_set_id;
   if (selection_candidate_count > 0)
   {
+    pstr_drc_config->loudness_gain_db = selection_candidate_info[0].loud_norm_gain_db;
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.loud_norm_gain_db =
         selection_candidate_info[0].loud_norm_db_gain_adjust;
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.output_peak_level_db =
diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index 1f3072a..14ddda2 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -903,7 +903,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
                 selection_candidate_info[k].loud_norm_db_gain_adjust =
                     ia_min_flt(selection_candidate_info[k].loud_norm_db_gain_adjust,
                                pstr_drc_sel_proc_params_struct->loudness_norm_gain_db_max);
-                pstr_drc_config->loudness_gain_db =
+                selection_candidate_info[k].loud_norm_gain_db =
                     selection_candidate_info[k].loud_norm_db_gain_adjust;
 
                 selection_candidate_info[k].output_peak_level =
@@ -1033,7 +1033,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
                     ia_min_flt(selection_candidate_info[k].loud_norm_db_gain_adjust,
                                pstr_drc_sel_proc_params_struct->loudness_norm_gain_db_max);
 
-                pstr_drc_config->loudness_gain_db =
+                selection_candidate_info[k].loud_norm_gain_db =
                     selection_candidate_info[k].loud_norm_db_gain_adjust;
 
                 if (loudness[l] == UNDEFINED_LOUDNESS_VALUE)
-- 
2.43.0


From 86ea4b61899fb5993280bb2e7827d4d31e2de905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 20/70] fix: album loudness information leaves the types of the
 programme's entries alone

---
 decoder/impd_drc_static_payload.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index c5cbce5..e8434ad 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -522,7 +522,7 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
 
     for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_album_count; cnt++)
     {
-      pstr_loudness_info_set->loudness_info[cnt].loudness_info_type = 0;
+      pstr_loudness_info_set->str_loudness_info_album[cnt].loudness_info_type = 0;
       err_code = impd_drc_parse_loudness_info(
           &(pstr_loudness_info_set->str_loudness_info_album[cnt]), pstr_it_bit_buff);
       if (err_code)
-- 
2.43.0


From 4e144e8a14fbcfaef6925d5e3a5fc9e14a361370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 21/70] fix: bounds of the loudness information

---
 decoder/impd_drc_loudness_control.c                  |  4 +++-
 .../impd_drc_selection_process_drcset_selection.c    | 12 ++++++------
 decoder/impd_drc_static_payload.c                    |  8 ++++++++
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/decoder/impd_drc_loudness_control.c b/decoder/impd_drc_loudness_control.c
index fdfb09d..90d91b3 100644
--- a/decoder/impd_drc_loudness_control.c
+++ b/decoder/impd_drc_loudness_control.c
@@ -707,6 +707,7 @@ IA_ERRORCODE impd_drc_check_loudness_info(
           {
             loud_info_type2_match[l] = cnt;
             l++;
+            break;
           }
         }
         break;
@@ -721,6 +722,7 @@ IA_ERRORCODE impd_drc_check_loudness_info(
             loud_info_type3_match_num_members[cnt2] =
                 pstr_drc_sel_proc_params_struct->num_members_group_preset_ids_requested[cnt1];
             cnt2++;
+            break;
           }
         }
         break;
@@ -1180,7 +1182,7 @@ IA_ERRORCODE impd_drc_init_loudness_control(
   if (1 == pstr_drc_sel_proc_params_struct->loudness_normalization_on)
   {
     WORD32 cnt1;
-    ia_drc_loudness_info_struct *pstr_ia_loudness_info[16];
+    ia_drc_loudness_info_struct *pstr_ia_loudness_info[LOUDNESS_INFO_COUNT_MAX];
     err_code = impd_drc_find_overall_loudness_info(
         pstr_ia_loudness_info, &info_cnt, &overall_loudness_info_flag,
         pstr_drc_sel_proc_params_struct, pstr_loudness_info, req_dwnmix_id, pstr_drc_instruction);
diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index 14ddda2..f426571 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -815,9 +815,9 @@ IA_ERRORCODE impd_drc_set_pre_selection(
   WORD32 selection_candidate_step_2_count;
   WORD32 peak_info_count;
   WORD32 loudness_drc_set_id_requested;
-  WORD32 eq_set_id_loudness[16];
-  WORD32 eq_set_id_Peak[16];
-  WORD32 explicit_peak_information_present[16];
+  WORD32 eq_set_id_loudness[LOUDNESS_INFO_COUNT_MAX];
+  WORD32 eq_set_id_Peak[LOUDNESS_INFO_COUNT_MAX];
+  WORD32 explicit_peak_information_present[LOUDNESS_INFO_COUNT_MAX];
   WORD32 num_compression_eq_id[16];
   WORD32 downmix_id_match = 0;
   WORD32 num_compression_eq_count = 0;
@@ -825,9 +825,9 @@ IA_ERRORCODE impd_drc_set_pre_selection(
   WORD32 num_downmix_id_requests = pstr_drc_sel_proc_params_struct->num_downmix_id_requests;
   WORD32 loudness_deviation_max = pstr_drc_sel_proc_params_struct->loudness_deviation_max;
   FLOAT32 adjustment;
-  FLOAT32 loud_norm_gain_db[16];
-  FLOAT32 loudness[16];
-  FLOAT32 signal_peak_level[16];
+  FLOAT32 loud_norm_gain_db[LOUDNESS_INFO_COUNT_MAX];
+  FLOAT32 loudness[LOUDNESS_INFO_COUNT_MAX];
+  FLOAT32 signal_peak_level[LOUDNESS_INFO_COUNT_MAX];
   FLOAT32 output_peak_level_min = 1000.0f;
   FLOAT32 output_peak_level_max = pstr_drc_sel_proc_params_struct->output_peak_level_max;
   ia_drc_uni_drc_coeffs_struct *str_p_loc_drc_coefficients_uni_drc = NULL;
diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index e8434ad..f214ce0 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -483,6 +483,10 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
   WORD32 cnt;
 
   pstr_loudness_info_set->loudness_info_count = ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
+  if (pstr_loudness_info_set->loudness_info_count > LOUDNESS_INFO_COUNT_MAX)
+  {
+    return IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR;
+  }
 
   for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_count; cnt++)
   {
@@ -519,6 +523,10 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
   {
     pstr_loudness_info_set->loudness_info_album_count =
         ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
+    if (pstr_loudness_info_set->loudness_info_album_count > LOUDNESS_INFO_COUNT_MAX)
+    {
+      return IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR;
+    }
 
     for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_album_count; cnt++)
     {
-- 
2.43.0


From a72215c6c31929b068765db3aad18570c437a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 22/70] fix: bounds of time-domain binaural filters

---
 decoder/impeghd_binaural.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 17b4d5a..d29f6ba 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -173,6 +173,11 @@ impeghd_binaural_read_td_data(ia_bit_buf_struct *ptr_bit_buf,
   pstr_binaural_td_data->begin_delay = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
   pstr_binaural_td_data->len_direct = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
   pstr_binaural_td_data->num_diffuse_block = ia_core_coder_read_bits_buf(ptr_bit_buf, 8);
+  if ((pstr_binaural_td_data->len_direct > MAX_LENGTH_DIRECT_FILTER) ||
+      (pstr_binaural_td_data->num_diffuse_block > MAX_NUM_DIFFUSE_BLOCKS))
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_TAPS;
+  }
   pstr_binaural_td_data->num_channel = pstr_binaural_rep->brir_pairs;
 
   if (pstr_binaural_rep->brir_pairs > MAX_NUM_BRIR_PAIRS)
-- 
2.43.0


From a60fd800e5010347c955ac9b68da9d74408f91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 23/70] fix: stereo filling of the multichannel coding tool
 uses the grouping of its own channel

---
 decoder/ia_core_coder_process.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ia_core_coder_process.c b/decoder/ia_core_coder_process.c
index 567b074..cb04299 100644
--- a/decoder/ia_core_coder_process.c
+++ b/decoder/ia_core_coder_process.c
@@ -974,6 +974,10 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
         FLOAT32 *prevSpec2 = mct->prev_out_spec[mct->code_pairs[i][1] + mct->start_channel];
         WORD32 sfb;
 
+        /* the grouping kept with the window information is that of the channel parsed last */
+        ia_core_coder_calc_grp_offset(pstr_usac_data->pstr_sfb_info[ch2],
+                                      pstr_usac_data->group_dis[ch2]);
+
         for (win = 0, group = 0; group < pstr_usac_dec_config->ia_sfb_info[ch2]->num_groups;
              group++)
         {
-- 
2.43.0


From d8648e62b467205e337f8cef27e53a289e3530ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 24/70] fix: previous spectra of multichannel coding tools of
 later signal groups

---
 decoder/ia_core_coder_process.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/decoder/ia_core_coder_process.c b/decoder/ia_core_coder_process.c
index cb04299..cabb0b6 100644
--- a/decoder/ia_core_coder_process.c
+++ b/decoder/ia_core_coder_process.c
@@ -923,12 +923,12 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
       {
         return err;
       }
-      mct_cnt++;
       for (i = 0; i < MAX_NUM_CHANNELS; i++)
       {
         pstr_usac_dec_config->ia_mcdata[mct_cnt].prev_out_spec[i] =
             &pstr_usac_data->mct_prev_out_spec[i][0];
       }
+      mct_cnt++;
     }
   }
   for (sig_group = 0; sig_group < mct_cnt; sig_group++)
@@ -1089,9 +1089,10 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
       const ia_sfb_info *sfb_info_element = pstr_usac_dec_config->ia_sfb_info[chIdx];
       if (pstr_usac_dec_config->ia_sfb_info[chIdx] == NULL)
         return IA_MPEGH_DEC_EXE_FATAL_NULL_PTR_SFB_INFO;
-      mct->prev_out_spec[ch] = &pstr_usac_data->mct_prev_out_spec[ch][0];
-      impeghd_mc_save_prev(mct, pstr_usac_data->coef[chIdx], ch, sfb_info_element->max_win_len,
-                           sfb_info_element->bins_per_sbk, 0);
+      mct->prev_out_spec[ch + mct->start_channel] =
+          &pstr_usac_data->mct_prev_out_spec[ch + mct->start_channel][0];
+      impeghd_mc_save_prev(mct, pstr_usac_data->coef[chIdx], ch + mct->start_channel,
+                           sfb_info_element->max_win_len, sfb_info_element->bins_per_sbk, 0);
     }
   }
 
-- 
2.43.0


From b63bd5fae5ece4d9641555aebb2a9f86e5e2b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 25/70] fix: a repeated identical configuration does not
 disturb decoding

---
 decoder/ia_core_coder_decode_main.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index d06fae3..2ea425b 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2551,7 +2551,16 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
           pstr_dec_data->dec_bit_buf.ptr_read_next = ptr_read_next;
         }
         mpegh_dec_handle->flush = flush;
-        if (!flush)
+        if (handle->p_state_mpeghd->frame_counter != 0)
+        {
+          /* the configuration in use is repeated: what depends on it is kept */
+          WORD32 i;
+          for (i = 0; i < pac_info.packet_length; i++)
+          {
+            ia_core_coder_read_bits_buf(&pstr_dec_data->dec_bit_buf, 8);
+          }
+        }
+        else
         {
           err_code = impegh_3daudio_config_dec(mpegh_dec_handle, &bytes_consumed,
                                                &pstr_dec_data->dec_bit_buf);
-- 
2.43.0


From f3eca804c38c1091bcad436970b6d50be8cfc3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 26/70] fix: multichannel coding tool starts from its own
 configuration only

---
 decoder/impeghd_multichannel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index 0735761..8cde261 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -280,6 +280,7 @@ IA_ERRORCODE impeghd_mc_init(ia_usac_decoder_config_struct *pstr_usac_dec_config
   ia_core_coder_create_init_bit_buf(&it_bit_buff, ptr_bitbuf, bitbuf_len);
 
   it_bit_buff.xmpeghd_jmp_buf = xmpeghd_jmp_buf;
+  memset(ptr_mc_data, 0, sizeof(*ptr_mc_data));
   ptr_mc_data->use_tool = 1;
   ptr_mc_data->start_channel = start_ch;
   ptr_mc_data->start_element = start_element;
-- 
2.43.0


From 5b4f1b46c5dc7a6b2d6eb043bffbdba09731ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 27/70] fix: the top channel is downmixed to all loudspeakers
 of the upper or middle layer

---
 decoder/impeghd_format_conv_init.c | 70 ++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index 64ad1be..7a2d772 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -112,12 +112,28 @@ IA_ERRORCODE impeghd_format_conv_dmx_init(ia_format_conv_dmx_state *active_dmx,
  */
 static WORD8 impeghd_m_channel(const WORD32 channel)
 {
-  if ((channel >= CH_M_000) && (channel <= CH_M_180))
+  switch (channel)
   {
+  case CH_M_000:
+  case CH_M_L022:
+  case CH_M_R022:
+  case CH_M_L030:
+  case CH_M_R030:
+  case CH_M_L045:
+  case CH_M_R045:
+  case CH_M_L060:
+  case CH_M_R060:
+  case CH_M_L090:
+  case CH_M_R090:
+  case CH_M_L110:
+  case CH_M_R110:
+  case CH_M_L135:
+  case CH_M_R135:
+  case CH_M_L150:
+  case CH_M_R150:
+  case CH_M_180:
     return 1;
-  }
-  else
-  {
+  default:
     return 0;
   }
 }
@@ -132,12 +148,22 @@ static WORD8 impeghd_m_channel(const WORD32 channel)
  */
 static WORD8 impeghd_u_channel(const WORD32 channel)
 {
-  if ((channel >= CH_U_000) && (channel <= CH_U_180))
+  switch (channel)
   {
+  case CH_U_000:
+  case CH_U_L030:
+  case CH_U_R030:
+  case CH_U_L045:
+  case CH_U_R045:
+  case CH_U_L090:
+  case CH_U_R090:
+  case CH_U_L110:
+  case CH_U_R110:
+  case CH_U_L135:
+  case CH_U_R135:
+  case CH_U_180:
     return 1;
-  }
-  else
-  {
+  default:
     return 0;
   }
 }
@@ -689,24 +715,24 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
           if (ia_dmx_rules_fc[k][4] == RULE_TOP2ALLM) // Not Entering IF statement
           {
             num_chanl = 0;
-            for (chnl_u = CH_M_000; chnl_u <= CH_M_180; chnl_u++)
+            for (chnl_u = 0; chnl_u < (WORD32)out_chn_num; chnl_u++)
             {
-              if (impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format) != -1)
+              if (impeghd_m_channel(ptr_out_ch_format[chnl_u]))
                 num_chanl++;
             }
             if (num_chanl > 0) // Max value can be 9
             {
               gain = 1.0f / (FLOAT32)ia_sqrt_flt(num_chanl);
-              for (chnl_u = CH_M_000; chnl_u <= CH_M_180; chnl_u++)
+              for (chnl_u = 0; chnl_u < (WORD32)out_chn_num; chnl_u++)
               {
+                if (!impeghd_m_channel(ptr_out_ch_format[chnl_u]))
+                  continue;
                 ptr_io_src[channel] = i;
-                ptr_io_dst[channel] =
-                    impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format);
+                ptr_io_dst[channel] = chnl_u;
                 ptr_io_gain[channel] =
                     ia_mul_flt(ia_mul_flt(0.01f, (FLOAT32)ia_dmx_rules_fc[k][3]), gain);
                 ptr_io_proc[channel] = ia_dmx_rules_fc[k][7];
-                if (ptr_io_dst[channel] != -1)
-                  channel++;
+                channel++;
               }
               break;
             }
@@ -716,24 +742,24 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
           if (ia_dmx_rules_fc[k][4] == RULE_TOP2ALLU) // Not entering the IF statement
           {
             num_chanl = 0;
-            for (chnl_u = CH_U_000; chnl_u <= CH_U_180; chnl_u++)
+            for (chnl_u = 0; chnl_u < (WORD32)out_chn_num; chnl_u++)
             {
-              if (impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format) != -1)
+              if (impeghd_u_channel(ptr_out_ch_format[chnl_u]))
                 num_chanl++;
             }
             if (num_chanl > 0) // Max value can be 9
             {
               gain = 1.0f / (FLOAT32)ia_sqrt_flt(num_chanl);
-              for (chnl_u = CH_U_000; chnl_u <= CH_U_180; chnl_u++)
+              for (chnl_u = 0; chnl_u < (WORD32)out_chn_num; chnl_u++)
               {
+                if (!impeghd_u_channel(ptr_out_ch_format[chnl_u]))
+                  continue;
                 ptr_io_src[channel] = i;
-                ptr_io_dst[channel] =
-                    impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format);
+                ptr_io_dst[channel] = chnl_u;
                 ptr_io_gain[channel] =
                     ia_mul_flt(ia_mul_flt(0.01f, (FLOAT32)ia_dmx_rules_fc[k][3]), gain);
                 ptr_io_proc[channel] = ia_dmx_rules_fc[k][7];
-                if (ptr_io_dst[channel] != -1)
-                  channel++;
+                channel++;
               }
               break;
             }
-- 
2.43.0


From dd399c522a57f1f2c0bb0e5cb4a89dff982b0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 28/70] fix: equaliser of the top channel towards the upper
 layer

---
 decoder/impeghd_format_conv_init.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index 7a2d772..5c6581c 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -308,13 +308,16 @@ static IA_ERRORCODE impeghd_fc_eq_compute(const WORD32 samp_rate,
     for (i = 0; i < FC_ERB_BANDS; i++)
     {
       ptr_eq[i] = 1.0f;
-      if ((RULE_EQ4 == rules) || (RULE_EQ3 == rules))
+      if (RULE_EQ4 == rules)
       {
         ptr_eq[i] *= impeghd_fc_filter_peak(&ptr_filter_param[0], *ptr_frequency);
         ptr_eq[i] *= impeghd_fc_filter_peak(&ptr_filter_param[4], *ptr_frequency);
       }
       if (RULE_EQ3 == rules)
-        ptr_filter_param = &ia_peak_filter_params_fc[2][4];
+      {
+        ptr_eq[i] *= impeghd_fc_filter_peak(&ptr_filter_param[4], *ptr_frequency);
+        ptr_eq[i] *= impeghd_fc_filter_peak(&ptr_filter_param[8], *ptr_frequency);
+      }
       if (RULE_EQ4 != rules)
         ptr_eq[i] *=
             impeghd_format_conv_peak_filter_neg_gain(ptr_filter_param, *ptr_frequency, 1, 1);
-- 
2.43.0


From bf22d4dfd3eeff9bd2029a3cf9640f563edfe162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 29/70] fix: loudspeaker gains of the panned format conversion
 skip the LFE channels

---
 decoder/ia_core_coder_decode_main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 2ea425b..109998f 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -716,9 +716,14 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
         {
           return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
         }
+        /* The gains of the object renderer are those of the loudspeakers that are not LFEs */
+        WORD32 non_lfe_chn = 0;
         for (out_chn = 0; out_chn < num_out_chn; out_chn++)
         {
-          pstr_fc_params->downmix_mat[chn][out_chn] = pstr_obj_renderer->final_gains[out_chn];
+          pstr_fc_params->downmix_mat[chn][out_chn] =
+              ptr_cicp_out_geometry[out_chn]->lfe_flag
+                  ? 0.0f
+                  : pstr_obj_renderer->final_gains[non_lfe_chn++];
         }
       }
 
-- 
2.43.0


From b8cd1c250565728cfac75be85892456cc6dbcb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 30/70] fix: absolutely coded spread depth of an object has
 four bits

---
 decoder/impeghd_oam_dec_ld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 29e074b..3e4a55d 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -447,7 +447,7 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         ptr_oam_dec_state->spread_height[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
         ptr_oam_dec_state->spread_depth[obj_idx] =
-            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
+            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_DEPTH_BITS);
       }
       else
       {
-- 
2.43.0


From 8e47ffa9de24af43a23279bafcdb8c0f0c4d5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 31/70] fix: absolutely coded object priority is present when
 it is not fixed

---
 decoder/impeghd_oam_dec_ld.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 3e4a55d..4a76cd8 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -459,11 +459,6 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
     {
       if (!ptr_oam_dec_state->dynamic_obj_priority_fixed)
       {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
-      }
-      else
-      {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
         ptr_oam_dec_state->dyn_obj_priority[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_DYN_OBJ_PRI_BITS);
       }
-- 
2.43.0


From 69d1f34ba379fe6470f105f141d9fdfcd77b3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 32/70] fix: fixed object metadata keeps its value until the
 next intracoded metadata

---
 decoder/impeghd_oam_dec_ld.c | 38 +++++-------------------------------
 1 file changed, 5 insertions(+), 33 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 4a76cd8..f535a16 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -379,12 +379,6 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         }
       }
     }
-    else
-    {
-      ptr_oam_dec_state->spread_width[obj_idx] = 0;
-      ptr_oam_dec_state->spread_height[obj_idx] = 0;
-      ptr_oam_dec_state->spread_depth[obj_idx] = 0;
-    }
     if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present)
     {
       if (ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS))
@@ -397,48 +391,26 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
   }
   else
   {
-    if (ptr_oam_dec_state->azimuth_fixed)
-    {
-      ptr_oam_dec_state->azimuth[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->azimuth_fixed)
     {
       ptr_oam_dec_state->azimuth[obj_idx] =
           impeghd_oam_read_sign_param(ptr_bit_buf, OAM_AZIMUTH_BITS);
     }
-    if (ptr_oam_dec_state->elevation_fixed)
-    {
-      ptr_oam_dec_state->elevation[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->elevation_fixed)
     {
       ptr_oam_dec_state->elevation[obj_idx] =
           impeghd_oam_read_sign_param(ptr_bit_buf, OAM_ELEVATION_BITS);
     }
-    if (ptr_oam_dec_state->radius_fixed)
-    {
-      ptr_oam_dec_state->radius[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->radius_fixed)
     {
       ptr_oam_dec_state->radius[obj_idx] =
           ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_RADIUS_BITS);
     }
-    if (ptr_oam_dec_state->gain_fixed)
-    {
-      ptr_oam_dec_state->gain[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->gain_fixed)
     {
       ptr_oam_dec_state->gain[obj_idx] = impeghd_oam_read_sign_param(ptr_bit_buf, OAM_GAIN_BITS);
     }
-    if (ptr_oam_dec_state->spread_fixed)
-    {
-      ptr_oam_dec_state->spread_width[obj_idx] = 0;
-      ptr_oam_dec_state->spread_height[obj_idx] = 0;
-      ptr_oam_dec_state->spread_depth[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->spread_fixed)
     {
       if (!ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
-- 
2.43.0


From f6d4cdcb5603089ec095fabf41430231119f7e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 33/70] fix: fixed uniform spread of objects goes to its own
 part of the frame

---
 decoder/impeghd_oam_dec_ld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index f535a16..b66b992 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -597,7 +597,7 @@ static IA_ERRORCODE impeghd_ic_obj_md_ld_dec(ia_oam_dec_state_struct *ptr_oam_de
       if (ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
         param_val = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_WIDTH_BITS);
-        for (i = 0; i < num_objects; i++)
+        for (i = obj_idx_start; i < obj_idx_end; i++)
         {
           ptr_oam_dec_state->spread_width[i] = param_val;
         }
-- 
2.43.0


From 95c98b300c230d80bb47427e1af7b83ffc012398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 34/70] fix: object metadata of every part of the frame is
 limited to its range

---
 decoder/impeghd_oam_dec_ld.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index b66b992..6717568 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -70,13 +70,14 @@
  */
 static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
 {
-  WORD32 n, num_elements;
+  WORD32 n, first, end;
   FLOAT32 minval, maxval;
-  num_elements = ptr_oam_dec_state->num_objects;
+  first = (ptr_oam_dec_state->sub_frame_number - 1) * ptr_oam_dec_state->num_objects;
+  end = ptr_oam_dec_state->sub_frame_number * ptr_oam_dec_state->num_objects;
   /* radius */
   maxval = 16.f;
   minval = 0.5f;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < end; n++)
   {
     ptr_oam_dec_state->radius_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->radius_descaled[n], minval), maxval);
@@ -84,7 +85,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* elevation */
   maxval = 90;
   minval = -90;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < end; n++)
   {
     ptr_oam_dec_state->elevation_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->elevation_descaled[n], minval), maxval);
@@ -92,7 +93,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* azimuth */
   maxval = 180;
   minval = -180;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < end; n++)
   {
     ptr_oam_dec_state->azimuth_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->azimuth_descaled[n], minval), maxval);
@@ -100,7 +101,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* gain */
   maxval = 5.957f;
   minval = 0.004f;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < end; n++)
   {
     ptr_oam_dec_state->gain_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->gain_descaled[n], minval), maxval);
@@ -108,7 +109,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* spread */
   maxval = 180;
   minval = 0;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < end; n++)
   {
     ptr_oam_dec_state->spread_width_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->spread_width_descaled[n], minval), maxval);
@@ -118,7 +119,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread depth */
     maxval = 15.5f;
     minval = 0.0f;
-    for (n = 0; n < num_elements; n++)
+    for (n = first; n < end; n++)
     {
       ptr_oam_dec_state->spread_depth_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_depth_descaled[n], minval), maxval);
@@ -126,7 +127,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread height */
     maxval = 90;
     minval = 0;
-    for (n = 0; n < num_elements; n++)
+    for (n = first; n < end; n++)
     {
       ptr_oam_dec_state->spread_height_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_height_descaled[n], minval), maxval);
@@ -135,7 +136,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* dynamic object priority */
   maxval = 7.0f;
   minval = 0.0f;
-  for (n = 0; n < num_elements; n++)
+  for (n = first; n < end; n++)
   {
     ptr_oam_dec_state->dyn_obj_priority_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->dyn_obj_priority_descaled[n], minval), maxval);
-- 
2.43.0


From 5cefc9f28f192ab630fcfc888f3adac45ad6c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 35/70] fix: object metadata of a part of the frame follow
 those of the part before it

---
 decoder/ia_core_coder_decode_main.c | 20 +++-------------
 decoder/impeghd_oam_dec.h           |  1 +
 decoder/impeghd_oam_dec_ld.c        | 36 +++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 109998f..f77aa96 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1393,23 +1393,9 @@ impeghd_obj_md_dec_ren_process(ia_dec_data_struct *pstr_dec_data, FLOAT32 *ptr_o
   else
   {
     WORD32 num_iter = (ccfl / p_obj_md_cfg->frame_length);
-    pstr_obj_md_dec_state->sub_frame_number = 0;
     for (i = 0; i < num_iter; i++)
     {
-      if (pstr_obj_md_dec_state->sub_frame_obj_md_present[i])
-      {
-        pstr_obj_md_dec_state->sub_frame_number++;
-        if (pstr_obj_md_dec_state->sub_frame_number > num_iter)
-        {
-          pstr_obj_md_dec_state->sub_frame_number =
-              pstr_obj_md_dec_state->sub_frame_number % num_iter;
-        }
-      }
-      else if (i == 0)
-      {
-        pstr_obj_md_dec_state->sub_frame_number = num_iter;
-      }
-
+      pstr_obj_md_dec_state->sub_frame_number = i + 1;
       impeghd_obj_renderer_dec(pstr_obj_ren_dec_state,
                                ptr_in_buf + i * (p_obj_md_cfg->frame_length),
                                ptr_out_buf + i * (p_obj_md_cfg->frame_length), ccfl);
@@ -2035,14 +2021,14 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
           {
             WORD32 sub_frm;
             WORD32 num_sub_frms = (ccfl / p_obj_md_cfg->frame_length);
-            pstr_obj_md_dec_state->sub_frame_number = 0;
             for (sub_frm = 0; sub_frm < num_sub_frms; sub_frm++)
             {
+              pstr_obj_md_dec_state->sub_frame_number = sub_frm + 1;
+              impeghd_obj_md_keep(pstr_obj_md_dec_state, num_sub_frms);
               pstr_obj_md_dec_state->sub_frame_obj_md_present[sub_frm] =
                   ia_core_coder_read_bits_buf(&bit_buf_str, OAM_FLAG_BITS);
               if (pstr_obj_md_dec_state->sub_frame_obj_md_present[sub_frm])
               {
-                pstr_obj_md_dec_state->sub_frame_number++;
                 err_code = impeghd_obj_md_dec(pstr_obj_md_dec_state, &bit_buf_str);
                 if (err_code != IA_MPEGH_DEC_NO_ERROR)
                 {
diff --git a/decoder/impeghd_oam_dec.h b/decoder/impeghd_oam_dec.h
index 3b5490f..8e0a39b 100644
--- a/decoder/impeghd_oam_dec.h
+++ b/decoder/impeghd_oam_dec.h
@@ -35,6 +35,7 @@
 #ifndef IMPEGHD_OAM_DEC_H
 #define IMPEGHD_OAM_DEC_H
 
+VOID impeghd_obj_md_keep(ia_oam_dec_state_struct *ptr_oam_dec_state, WORD32 num_sub_frames);
 IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_state,
                                           ia_bit_buf_struct *ptr_bit_buf);
 
diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 6717568..ec54ab6 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -683,6 +683,42 @@ VOID impeghd_descale_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
   return;
 }
 
+/**
+ *  impeghd_obj_md_keep
+ *
+ *  \brief The metadata of a part of the frame start as those of the part before it.
+ *
+ *  \param [in,out] ptr_oam_dec_state  Object metadata decoder state structure.
+ *  \param [in]     num_sub_frames     Number of metadata parts of a frame.
+ *
+ *
+ *
+ */
+VOID impeghd_obj_md_keep(ia_oam_dec_state_struct *ptr_oam_dec_state, WORD32 num_sub_frames)
+{
+  WORD32 o;
+  WORD32 num_objects = ptr_oam_dec_state->num_objects;
+  WORD32 cur = ptr_oam_dec_state->sub_frame_number - 1;
+  WORD32 prev = ((cur > 0) ? cur : num_sub_frames) - 1;
+
+  for (o = 0; o < num_objects; o++)
+  {
+    WORD32 to = cur * num_objects + o;
+    WORD32 from = prev * num_objects + o;
+    ptr_oam_dec_state->has_obj_md[to] = 0;
+    ptr_oam_dec_state->azimuth[to] = ptr_oam_dec_state->azimuth[from];
+    ptr_oam_dec_state->elevation[to] = ptr_oam_dec_state->elevation[from];
+    ptr_oam_dec_state->radius[to] = ptr_oam_dec_state->radius[from];
+    ptr_oam_dec_state->gain[to] = ptr_oam_dec_state->gain[from];
+    ptr_oam_dec_state->spread_width[to] = ptr_oam_dec_state->spread_width[from];
+    ptr_oam_dec_state->spread_height[to] = ptr_oam_dec_state->spread_height[from];
+    ptr_oam_dec_state->spread_depth[to] = ptr_oam_dec_state->spread_depth[from];
+    ptr_oam_dec_state->dyn_obj_priority[to] = ptr_oam_dec_state->dyn_obj_priority[from];
+  }
+  impeghd_obj_md_descale_limit(ptr_oam_dec_state);
+  return;
+}
+
 /**
  *  impeghd_obj_md_low_delay_dec
  *
-- 
2.43.0


From a6bac5d1ba14a66254b55e5b79804ad0cb8eadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 36/70] fix: object renderer starts every configuration from an
 empty downmix of imaginary loudspeakers

---
 decoder/impeghd_obj_ren_dec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 0006296..b772bc7 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -868,6 +868,7 @@ VOID impeghd_remap_imag_spks(ia_obj_ren_dec_state_struct *ptr_obj_ren_dec_state)
   WORD32 total_spks = num_real_spks + num_imag_spks;
   FLOAT32 scratch_mtx[CICP_MAX_NUM_LS][CICP_MAX_NUM_LS];
   memset(scratch_mtx, 0, sizeof(scratch_mtx));
+  memset(ptr_obj_ren_dec_state->downmix_mtx, 0, sizeof(ptr_obj_ren_dec_state->downmix_mtx));
   for (i = (num_real_spks); i > 0; i--)
   {
     ptr_obj_ren_dec_state->downmix_mtx[i - 1][i - 1] = 1.0f;
-- 
2.43.0


From e62a86179780e4c949ab23dc9cc33b41ba41943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 37/70] fix: objects join the channels after the format
 conversion to a target layout

---
 decoder/ia_core_coder_create.h      |  1 +
 decoder/ia_core_coder_decode_main.c | 45 ++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_create.h b/decoder/ia_core_coder_create.h
index b063cae..ce5ae39 100644
--- a/decoder/ia_core_coder_create.h
+++ b/decoder/ia_core_coder_create.h
@@ -52,6 +52,7 @@ typedef struct
   ia_interaction_data_struct str_interaction_config;
   ia_enh_obj_md_frame_str str_enh_obj_md_frame;
   ia_format_conv_struct str_format_converter;
+  FLOAT32 fc_obj_signal[MAX_NUM_CHANNELS][FC_DELAY + 1024];
   ia_domain_switcher_struct str_domain_switcher;
   ia_binaural_render_struct binaural_handle;
   ia_binaural_renderer str_binaural_rendering;
diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index f77aa96..a0b965b 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1405,6 +1405,36 @@ impeghd_obj_md_dec_ren_process(ia_dec_data_struct *pstr_dec_data, FLOAT32 *ptr_o
   *num_out_channels = pstr_obj_ren_dec_state->num_cicp_speakers;
   return 0;
 }
+/**
+ *  impeghd_fc_add_obj_signal
+ *
+ *  \brief Adds the rendered audio objects, delayed as the converted channels, to the output of
+ *         the format converter.
+ *
+ *  \param [in,out] pstr_dec_data    Pointer to decoder data structure.
+ *  \param [in]     num_out_channels Number of output channels.
+ *  \param [in]     num_samples      Number of samples of the frame.
+ *
+ *
+ *
+ */
+static VOID impeghd_fc_add_obj_signal(ia_dec_data_struct *pstr_dec_data, WORD32 num_out_channels,
+                                      WORD32 num_samples)
+{
+  WORD32 channel, s;
+
+  for (channel = 0; channel < num_out_channels; channel++)
+  {
+    FLOAT32 *ptr_out = &pstr_dec_data->str_usac_data.time_sample_vector[channel][0];
+    FLOAT32 *ptr_obj = &pstr_dec_data->fc_obj_signal[channel][0];
+    for (s = 0; s < num_samples; s++)
+    {
+      ptr_out[s] = ia_add_flt(ptr_out[s], ptr_obj[s]);
+    }
+    memcpy(ptr_obj, &ptr_obj[num_samples], FC_DELAY * sizeof(ptr_obj[0]));
+    memset(&ptr_obj[FC_DELAY], 0, num_samples * sizeof(ptr_obj[0]));
+  }
+}
 /**
  *  impegh_dec_peak_limiter
  *
@@ -1827,6 +1857,7 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
 
   if (pstr_asc->str_usac_config.signals_3d.format_converter_enable == 1)
   {
+    memset(pstr_dec_data->fc_obj_signal, 0, sizeof(pstr_dec_data->fc_obj_signal));
     WORD32 err = impeghd_format_conv_init(handle, pstr_asc, num_channel_out, 0,
                              mpegh_dec_handle->mpeghd_scratch_mem_v);
     if (err)
@@ -2174,7 +2205,18 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
               ia_signals_3da, &pstr_dec_data->str_enh_obj_md_frame, &pstr_asc->str_mae_asi);
           mpegh_dec_handle->p_config->oam_md_payload_length = (str_bit_buf.cnt_bits + 7) >> 3;
         }
-        if (pstr_usac_config->signals_3d.num_ch != 0)
+        if ((pstr_usac_config->signals_3d.num_ch != 0) &&
+            (pstr_asc->str_usac_config.signals_3d.format_converter_enable == 1))
+        {
+          for (channel = 0; channel < *num_channel_out; channel++)
+          {
+            ia_core_coder_mem_cpy(&ptr_out_buf[channel * num_samples_out],
+                                  &pstr_dec_data->fc_obj_signal[channel][FC_DELAY],
+                                  num_samples_out);
+          }
+          ch_offset += pstr_usac_config->signals_3d.num_audio_obj;
+        }
+        else if (pstr_usac_config->signals_3d.num_ch != 0)
         {
           for (channel = 0; channel < *num_channel_out; channel++)
           {
@@ -2763,6 +2805,7 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         pstr_fc_scratch = (ia_format_converter_scratch *)ptr_fc_scratch;
         err_code = impeghd_format_converter_process(handle, num_channel_out,
                                                     &pstr_fc_scratch->scratch_fc[0]);
+        impeghd_fc_add_obj_signal(pstr_dec_data, *num_channel_out, num_samples_out);
       }
       if ((pstr_dec_data->str_drc_payload.num_sets[1] > 0 ||
            pstr_dec_data->str_drc_payload.num_sets[2] > 0))
-- 
2.43.0


From 5bab18aaff4c0f6eba422095e9e2ce3a9939823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 38/70] fix: gaps filled after the noise shaping use the pair's
 gap filling mask

---
 decoder/ia_core_coder_ext_ch_ele.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index 5be4bba..19b0b1b 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -1623,7 +1623,7 @@ static VOID ia_core_coder_data_process_igf_joint_stereo_after_tns(
   ia_core_coder_igf_apply_stereo(
       usac_data, chn, igf_config,
       (usac_data->window_sequence[chn] == EIGHT_SHORT_SEQUENCE) ? 1 : 0,
-      (const WORD8 *)usac_data->ms_used[chn], pstr_core_coder->ms_mask_present[0],
+      (const WORD8 *)usac_data->ms_used[chn], igf_hasmask[wn],
       info->num_groups, info->group_len, info->bins_per_sbk, info->sfb_per_sbk);
 
   if (3 != igf_hasmask[wn])
-- 
2.43.0


From 34cdd970c519b49e37af88d1c7093432a37d34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 39/70] fix: lowest gap filling source line above 127 kept in
 the energy calculation of a pair

---
 decoder/ia_core_coder_igf_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_igf_dec.c b/decoder/ia_core_coder_igf_dec.c
index 97c2071..d15226b 100644
--- a/decoder/ia_core_coder_igf_dec.c
+++ b/decoder/ia_core_coder_igf_dec.c
@@ -1195,7 +1195,7 @@ static VOID ia_core_coder_igf_calc_stereo(const ia_usac_igf_config_struct *igf_c
     WORD32 num_tiles_r;
     WORD32 igf_start_sfb = (WORD8)(igf_config->igf_grid[igf_win_type].igf_sfb_start);
     WORD32 igf_stop_sfb = (WORD8)(igf_config->igf_grid[igf_win_type].igf_sfb_stop);
-    WORD32 igf_min = (WORD8)(igf_config->igf_grid[igf_win_type].igf_min);
+    WORD32 igf_min = igf_config->igf_grid[igf_win_type].igf_min;
     WORD32 igf_bgn = (WORD32)(swb_offset[igf_start_sfb]);
 
     ia_usac_igf_dec_data_struct *igf_dec_data_right = &usac_data->igf_dec_data[chn + 1];
-- 
2.43.0


From 8fcd22653e6a079862f60a38d61e208bb68ad106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 40/70] fix: complex prediction stays within its bands when
 gaps are filled by prediction

---
 decoder/ia_core_coder_ext_ch_ele.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index 19b0b1b..bda5f2b 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -662,7 +662,7 @@ static VOID ia_core_coder_cplx_pred_upmixing(ia_usac_data_struct *usac_data, FLO
         {
           alpha_q_re_loc = ia_mul_flt((FLOAT32)alpha_q_re[grp][sfb], 0.1f);
           alpha_q_im_loc = ia_mul_flt((FLOAT32)alpha_q_im[grp][sfb], 0.1f);
-          if (0 == cplx_pred_used[grp][sfb])
+          if (0 == cplx_pred_used[grp][sfb] || sfb < sfb_start || sfb >= sfb_stop)
           {
             idx += pstr_sfb_info->sfb_width[sfb];
           }
-- 
2.43.0


From 1dd0b15d30446a977c27787bb302c831c5744014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 41/70] fix: temporal flattening of a narrow gap filling range
 uses its own prediction coefficients only

---
 decoder/ia_core_coder_igf_dec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ia_core_coder_igf_dec.c b/decoder/ia_core_coder_igf_dec.c
index d15226b..4ffb91c 100644
--- a/decoder/ia_core_coder_igf_dec.c
+++ b/decoder/ia_core_coder_igf_dec.c
@@ -562,6 +562,7 @@ static VOID ia_core_coder_tnf_apply(ia_usac_igf_dec_data_struct *igf_dec_data, W
   WORD32 order = 0;
   FLOAT32 *pred_coef = igf_dec_data->igf_scratch;
   FLOAT32 *tmp_scratch = pred_coef + 17;
+  ia_core_coder_memset(pred_coef, 17);
   ia_core_coder_igf_tnf_detect(igf_dec_data->igf_tnf_spec_float, igf_bgn, igf_end, pred_coef,
                                &order);
 
-- 
2.43.0


From f371b148a76255a2fcec4488c7e6984eedf26d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 42/70] fix: complex prediction restriction follows the gap
 filling configuration of its own element

---
 decoder/ia_core_coder_ext_ch_ele.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index bda5f2b..a22ceb7 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -1279,7 +1279,7 @@ ia_core_coder_data(WORD32 id, ia_usac_data_struct *usac_data, WORD32 elem_idx, W
       restricted	to	real-only	prediction,	i.e.	complex_coef	shall	be
       0*/
 
-      if (((pstr_usac_dec_config->str_usac_element_config->str_usac_ele_igf_init_config
+      if (((pstr_usac_dec_config->str_usac_element_config[elem_idx].str_usac_ele_igf_init_config
                 .igf_use_enf == 1) ||
            (usac_data->igf_config[elem_idx].igf_stereo_filling == 1)) &&
           (pstr_core_coder->complex_coef != 0))
-- 
2.43.0


From ce9261a45d584a8d01a01182ae2240a458e950a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 43/70] fix: long transforms of the binaural renderer give the
 spectrum of their input

---
 decoder/impeghd_ifft.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index 0ab3723..465da87 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1182,16 +1182,16 @@ VOID impeghd_cplx_ifft_8(FLOAT32 *x_r, FLOAT32 *x_i)
   x_i[0] = ia_add_flt(n01, x_1);
   x_r[1] = ia_add_flt(n10, x_2);
   x_i[1] = ia_add_flt(n11, x_3);
-  x_r[2] = ia_sub_flt(n21, x_4);
-  x_i[2] = ia_add_flt(n20, x_5);
+  x_r[2] = ia_sub_flt(n20, x_5);
+  x_i[2] = ia_add_flt(n21, x_4);
   x_r[3] = ia_add_flt(n30, x_6);
   x_i[3] = ia_add_flt(n31, x_7);
   x_r[4] = ia_sub_flt(n00, x_0);
   x_i[4] = ia_sub_flt(n01, x_1);
   x_r[5] = ia_sub_flt(n10, x_2);
   x_i[5] = ia_sub_flt(n11, x_3);
-  x_r[6] = ia_add_flt(n21, x_4);
-  x_i[6] = ia_sub_flt(n20, x_5);
+  x_r[6] = ia_add_flt(n20, x_5);
+  x_i[6] = ia_sub_flt(n21, x_4);
   x_r[7] = ia_sub_flt(n30, x_6);
   x_i[7] = ia_sub_flt(n31, x_7);
 
@@ -1220,12 +1220,12 @@ VOID impeghd_cplx_ifft_4(FLOAT32 *x_r, FLOAT32 *x_i)
   // 4 Point FFT
   x_0 = x_r[0];
   x_1 = x_i[0];
-  x_2 = x_r[2];
-  x_3 = x_i[2];
-  x_4 = x_r[4];
-  x_5 = x_i[4];
-  x_6 = x_r[6];
-  x_7 = x_i[6];
+  x_2 = x_r[1];
+  x_3 = x_i[1];
+  x_4 = x_r[2];
+  x_5 = x_i[2];
+  x_6 = x_r[3];
+  x_7 = x_i[3];
 
   xh0_0 = ia_add_flt(x_0, x_4);
   xh1_0 = ia_add_flt(x_1, x_5);
@@ -1322,7 +1322,16 @@ VOID impeghd_cplx_ifft_8k(FLOAT32 *ptr_in_buf_real, FLOAT32 *ptr_in_buf_imag,
         ptr_fft_interim_buf[(2 * i + 1) * dim2 + j] = temp_imag;
       }
     }
-    if (fft_len == 8192)
+    if (fft_len == 16384)
+    {
+      for (i = 0; i < dim1; i++)
+      {
+        ptr_data_r = &ptr_fft_interim_buf[(2 * i + 0) * dim2];
+        ptr_data_i = &ptr_fft_interim_buf[(2 * i + 1) * dim2];
+        impeghd_rad2_cplx_ifft(ptr_data_r, ptr_data_i, dim2, ptr_scratch_buf);
+      }
+    }
+    else if (fft_len == 8192)
     {
       for (i = 0; i < dim1; i++)
       {
-- 
2.43.0


From e1ea8fe8c24b3a587c0675f705d0daa38f00f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 44/70] fix: every loudspeaker signal reaches the binaural
 renderer in every frame

---
 decoder/ia_core_coder_decode_main.c | 8 ++++++++
 decoder/impeghd_binaural_renderer.h | 1 +
 2 files changed, 9 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index a0b965b..b4268ac 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1955,6 +1955,8 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
   if (*num_channel_out > MAX_NUM_CHANNELS)
     return IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX;
 
+  pstr_dec_data->binaural_handle.num_channel_in = *num_channel_out;
+
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
@@ -2785,6 +2787,12 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
 
       num_samples_out = pstr_dec_data->str_usac_data.output_samples;
 
+      if (handle->mpeghd_config.ui_binaural_flag)
+      {
+        /* the previous frame left the number of binaural signals here */
+        *num_channel_out = pstr_dec_data->binaural_handle.num_channel_in;
+      }
+
       err_code = ia_core_coder_dec_ext_ele_proc(temp_handle, num_channel_out);
       if (err_code != IA_MPEGH_DEC_NO_ERROR)
       {
diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index affddd1..a8bde5b 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -79,6 +79,7 @@ typedef struct
 {
   ia_binaural_ren_pers_mem_str str_binaural;
   WORD32 channel_map[MAX_NUM_BRIR_PAIRS];
+  WORD32 num_channel_in;
   FLOAT32 binaural_signal_in_renderer[MAX_NUM_BRIR_CHANNELS][BINAURAL_TEST_LGR_SIGNAL];
   FLOAT32 binaural_signal_out_renderer[BINAURAL_NB_OUTPUT][BINAURAL_DIR_MAXLEN];
   FLOAT32 *ptr_binaural_signal_in_renderer[MAX_NUM_BRIR_CHANNELS];
-- 
2.43.0


From 3aaef57cb20df1934b097c06296f26ee889415d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 45/70] fix: binaural filters shorter than the initial delay do
 not move a negative number of samples

---
 decoder/impeghd_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 0b2a1ba..a53aae1 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -847,7 +847,8 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     }
 
     pstr_dec_data->binaural_handle.str_binaural.memory_index +=
-        2048; // TODO: Replace 2048, with variable
+        ia_min_int(2048, pstr_dec_data->binaural_handle.str_binaural
+                             .processed_samples); // TODO: Replace 2048, with variable
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
-- 
2.43.0


From 2ae1ffe31ab98c6916f9c04a9d689ef1224e4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 46/70] fix: binaural rendering maps every loudspeaker that is
 rendered to a filter of the set

---
 decoder/impeghd_api.c               |  8 +++++++
 decoder/impeghd_binaural_renderer.c | 34 ++++++++++++++++++++++++-----
 decoder/impeghd_binaural_renderer.h |  4 +++-
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index a53aae1..6dc4739 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -837,6 +837,14 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
       wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
     }
 
+    wav_info.num_cicp_spk = 0;
+    wav_info.ptr_cicp_spk = &pstr_audio_specific_config->ref_spk_layout.cicp_spk_idx[0];
+    if ((p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0) &&
+        (pstr_audio_specific_config->ref_spk_layout.spk_layout_type == 1))
+    {
+      wav_info.num_cicp_spk = pstr_audio_specific_config->ref_spk_layout.num_speakers;
+    }
+
     pstr_binaural_rendering->ptr_scratch =
         p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
     err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index ba54120..77f5f87 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -86,6 +86,7 @@
 #include "impeghd_cicp_struct_def.h"
 #include "impeghd_obj_ren_dec_defines.h"
 #include "impeghd_ren_interface_utils.h"
+#include "impeghd_cicp_2_geometry_rom.h"
 
 /**
  * @defgroup BinauralProcess Binaural renderer process
@@ -348,7 +349,7 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
 {
   IA_ERRORCODE error;
   WORD32 i, j;
-  WORD32 num_ch_expected = 0, num_lfe_expected = 0;
+  WORD32 num_ch_expected = 0, num_lfe_expected = 0, num_speaker_expected;
   WORD32 returned_code_8s, ind = 0;
   WORD8 *ptr_scratch = (WORD8 *)binaural_info_handle->ptr_scratch;
   ia_binaural_scratch *pstr_scratch = (ia_binaural_scratch *)ptr_scratch;
@@ -356,7 +357,23 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
   ia_td_binaural_ren_param_str *ptr_td_binaural_renderer_param = NULL;
   ia_ch_geometry geometry_expected[CICP2GEOMETRY_MAX_LOUDSPEAKERS_BRIR] = {{0}};
 
-  if (wav_param->cicp_spk_idx > 0)
+  num_speaker_expected = wav_param->num_speaker_expected;
+  if (wav_param->num_cicp_spk > 0)
+  {
+    num_speaker_expected = wav_param->num_cicp_spk;
+    if (num_speaker_expected > CICP2GEOMETRY_MAX_LOUDSPEAKERS_BRIR)
+    {
+      return IA_MPEGH_BINAURAL_INIT_FATAL_INIT_FAIL;
+    }
+    for (i = 0; i < num_speaker_expected; i++)
+    {
+      const ia_cicp_ls_geo_str *ptr_ls = &ia_cicp_ls_geo_tbls[wav_param->ptr_cicp_spk[i]];
+      geometry_expected[i].lfe = ptr_ls->lfe_flag;
+      geometry_expected[i].el = (WORD32)ptr_ls->ls_elevation;
+      geometry_expected[i].az = (WORD32)ptr_ls->ls_azimuth;
+    }
+  }
+  else if (wav_param->cicp_spk_idx > 0)
   {
     error = impeghd_fill_ls_geom_frm_cicp_spk_idx(wav_param->cicp_spk_idx, &geometry_expected[0],
                                                   &num_ch_expected, &num_lfe_expected);
@@ -364,6 +381,11 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
     {
       return error;
     }
+    num_speaker_expected = num_ch_expected + num_lfe_expected;
+  }
+  if (num_speaker_expected > CICP2GEOMETRY_MAX_LOUDSPEAKERS_BRIR)
+  {
+    return IA_MPEGH_BINAURAL_INIT_FATAL_INIT_FAIL;
   }
   for (i = 0; i < binaural_info_handle->num_binaural_representation; i++)
   {
@@ -373,12 +395,12 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
     {
       if (ptr_binaural_rep->is_hoa_data == 0)
       {
-        for (j = 0; j < wav_param->num_speaker_expected; j++)
+        for (j = 0; j < num_speaker_expected; j++)
         {
           ind = -1;
           impeghd_br_find_geometry_in_speaker_config_3d(
               &geometry_expected[j], &(ptr_binaural_rep->setup_spk_config_3d), &ind);
-          if (ind != -1)
+          if ((ind != -1) && (ind < ptr_binaural_rep->brir_pairs))
           {
             ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
             binaural_handle->channel_map[j] = ind;
@@ -394,10 +416,10 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
           break;
         }
       }
-      else
+      else if (num_speaker_expected <= ptr_binaural_rep->brir_pairs)
       {
         ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
-        for (j = 0; j < wav_param->num_speaker_expected; j++)
+        for (j = 0; j < num_speaker_expected; j++)
         {
           binaural_handle->channel_map[j] = j;
         }
diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index a8bde5b..59aa412 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -78,7 +78,7 @@ typedef struct
 typedef struct
 {
   ia_binaural_ren_pers_mem_str str_binaural;
-  WORD32 channel_map[MAX_NUM_BRIR_PAIRS];
+  WORD32 channel_map[MAX_NUM_BRIR_CHANNELS];
   WORD32 num_channel_in;
   FLOAT32 binaural_signal_in_renderer[MAX_NUM_BRIR_CHANNELS][BINAURAL_TEST_LGR_SIGNAL];
   FLOAT32 binaural_signal_out_renderer[BINAURAL_NB_OUTPUT][BINAURAL_DIR_MAXLEN];
@@ -93,6 +93,8 @@ typedef struct
   WORD32 num_speaker_expected;
   WORD32 cicp_spk_idx;
   WORD32 num_channel_is_input;
+  WORD32 num_cicp_spk;
+  const WORD32 *ptr_cicp_spk;
 } ia_binaural_in_stream_cfg_str;
 
 IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_handle,
-- 
2.43.0


From a0949bde09b6d254d678d2a8f40191256c4c574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 47/70] fix: two late blocks of a binaural filter have room for
 the current block as well

---
 decoder/impeghd_binaural_renderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index 59aa412..8ab5ac4 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -71,7 +71,7 @@ typedef struct
   FLOAT32 input_mem_buf[MAX_NUM_BRIR_CHANNELS][BINAURAL_FFT_MAXLEN];
   FLOAT32 output_mem_buf[BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
   FLOAT32 taps_diffuse[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
-  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_FFT_MAXLEN];
+  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS + 1][BINAURAL_FFT_MAXLEN];
   FLOAT32 diffuse_weight[MAX_NUM_BRIR_CHANNELS];
 } ia_binaural_ren_pers_mem_str;
 
-- 
2.43.0


From 65f4fa99cfd1d3cb1b4319411ee5c25718bc7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 48/70] fix: one tap binaural filters use a transform length
 that exists

---
 decoder/impeghd_binaural_renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index 77f5f87..1625c9d 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -194,7 +194,7 @@ static IA_ERRORCODE impeghd_binaural_struct_init(WORD32 direct_len, WORD32 diffu
 {
   WORD32 len, n;
   WORD32 fft_min_size;
-  n = 1;
+  n = 2; /* shortest length the transforms support */
   if (diffuse_len > BINAURAL_DIF_MAXLEN || direct_len > BINAURAL_DIR_MAXLEN)
   {
     return IA_MPEGH_BINAURAL_INIT_FATAL_UNSUPPORTED_BLOCK_LENGTH;
-- 
2.43.0


From ea53a063664ecaa2f47d74666df2fa1807af3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 49/70] fix: loudness normalisation applies to binaural output

---
 decoder/ia_core_coder_decode_main.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index b4268ac..4538c8a 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2876,13 +2876,22 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
 
       if (handle->mpeghd_config.ui_binaural_flag)
       {
+        FLOAT32 binaural_gain = 1.0f;
+        if (pstr_asc->str_usac_config.uni_drc_cfg.loudness_gain_db != 0.0f)
+        {
+          /* the loudness stage below works on signals that are rendered by then */
+          binaural_gain = (FLOAT32)pow(
+              10.0, pstr_asc->str_usac_config.uni_drc_cfg.loudness_gain_db / 20.0);
+        }
         for (sig = 0; sig < BINAURAL_TEST_LGR_SIGNAL; sig++)
         {
           for (channel = 0; channel < (*num_channel_out); channel++)
           {
             pstr_dec_data->binaural_handle.ptr_binaural_signal_in_renderer
                 [pstr_dec_data->binaural_handle.channel_map[channel]][sig] =
-                ia_div_q15_flt((pstr_dec_data->str_usac_data.time_sample_vector[channel][sig]));
+                ia_mul_flt(binaural_gain,
+                           ia_div_q15_flt(
+                               (pstr_dec_data->str_usac_data.time_sample_vector[channel][sig])));
           }
         }
         WORD32 num_samples_processed;
-- 
2.43.0


From 37f0f1928557dc8a58009c6e7251f5b3604d80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 50/70] fix: late part of a long room response has room for all
 of its blocks

---
 decoder/impeghd_binaural.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_binaural.h b/decoder/impeghd_binaural.h
index 96d42e8..1110870 100644
--- a/decoder/impeghd_binaural.h
+++ b/decoder/impeghd_binaural.h
@@ -126,8 +126,8 @@ typedef struct
   FLOAT32 diffusion_filter_1[MAX_NUM_BRIR_PAIRS];
   FLOAT32 diffuse_weigh_0[MAX_NUM_BRIR_PAIRS];
   FLOAT32 diffuse_weigh_1[MAX_NUM_BRIR_PAIRS];
-  FLOAT32 diffusion_filter_wmc[MAX_NUM_DIFFUSE_BLOCKS][MAX_LENGTH_DIRECT_FILTER];
-  FLOAT32 diffuse_filter[MAX_LENGTH_DIRECT_FILTER];
+  FLOAT32 diffusion_filter_wmc[2][MAX_NUM_DIFFUSE_BLOCKS * MAX_LENGTH_DIRECT_FILTER];
+  FLOAT32 diffuse_filter[MAX_NUM_DIFFUSE_BLOCKS * MAX_LENGTH_DIRECT_FILTER];
   FLOAT32 fft_ifft_scratch[FFT_IFFT_SCRATCH];
   FLOAT32 xi[BINAURAL_FFT_MAXLEN];
   FLOAT32 complex_scratch[BINAURAL_FFT_MAXLEN];
-- 
2.43.0


From a9c4745138e452b243b9b18ea1d31a26f26c7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 51/70] fix: complex prediction is refused in frames with
 stereo filling only

---
 decoder/ia_core_coder_ext_ch_ele.c   | 11 +++--------
 decoder/ia_core_coder_spectrum_dec.c |  6 ++++++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index a22ceb7..f3f0cdd 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -1163,6 +1163,7 @@ ia_core_coder_data(WORD32 id, ia_usac_data_struct *usac_data, WORD32 elem_idx, W
 
   pstr_core_coder->tns_on_lr = 1;
   pstr_core_coder->pred_dir = 0;
+  pstr_core_coder->complex_coef = 0;
 
   if (id == ID_USAC_LFE)
   {
@@ -1274,14 +1275,8 @@ ia_core_coder_data(WORD32 id, ia_usac_data_struct *usac_data, WORD32 elem_idx, W
       shall be restricted	 to	 real-only	 prediction,
       i.e. complex_coef	shall	be	0*/
 
-      /*If	 stereo	 filling	 is	 activated	 (i.e.	 if
-      stereo_filling==1),	 then	 the	 complex	 prediction	 tool	 shall be
-      restricted	to	real-only	prediction,	i.e.	complex_coef	shall	be
-      0*/
-
-      if (((pstr_usac_dec_config->str_usac_element_config[elem_idx].str_usac_ele_igf_init_config
-                .igf_use_enf == 1) ||
-           (usac_data->igf_config[elem_idx].igf_stereo_filling == 1)) &&
+      if ((pstr_usac_dec_config->str_usac_element_config[elem_idx].str_usac_ele_igf_init_config
+               .igf_use_enf == 1) &&
           (pstr_core_coder->complex_coef != 0))
       {
         return IA_MPEGH_DEC_INIT_FATAL_COMP_PRED_NOT_SUPPORTED;
diff --git a/decoder/ia_core_coder_spectrum_dec.c b/decoder/ia_core_coder_spectrum_dec.c
index 327048a..91947da 100644
--- a/decoder/ia_core_coder_spectrum_dec.c
+++ b/decoder/ia_core_coder_spectrum_dec.c
@@ -634,6 +634,12 @@ ia_core_coder_fd_channel_stream(ia_usac_data_struct *usac_data,
       if ((noise_level > 0) && (noise_level < 32))
       {
         igf_config->igf_stereo_filling = 1;
+        /*If stereo filling is activated (i.e. if stereo_filling==1), then the complex prediction
+        tool shall be restricted to real-only prediction, i.e. complex_coef shall be 0*/
+        if (pstr_core_coder->complex_coef != 0)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_COMP_PRED_NOT_SUPPORTED;
+        }
         noise_level = noise_level << 3;
       }
     }
-- 
2.43.0


From 48162b4b26fb473c79b77604435718b4a8696ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 52/70] fix: imaginary loudspeakers fill gaps between
 neighbouring loudspeakers only

---
 decoder/impeghd_obj_ren_dec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index b772bc7..0f364c1 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -580,6 +580,7 @@ impeghd_add_imaginary_ls(ia_obj_ren_dec_state_struct *ptr_obj_ren_dec_state, pVO
   WORD32 i, j = 0;
   WORD32 ls_order;
   WORD32 ls_azi_order;
+  WORD32 num_ls_azi;
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   WORD32 num_ls = ptr_obj_ren_dec_state->num_non_lfe_ls;
   WORD32 num_imag_ls = 0;
@@ -703,12 +704,13 @@ impeghd_add_imaginary_ls(ia_obj_ren_dec_state_struct *ptr_obj_ren_dec_state, pVO
     }
   }
   ls_azi_order = j;
+  num_ls_azi = j;
   if (ls_azi_order > 0)
   {
     impegh_quick_sort_azi(&ls_azi[0], &ls_azi_sorted_scratch[0], ls_azi_order);
   }
 
-  for (i = 0; i < (ls_azi_order - 1); i++)
+  for (i = 0; i < (num_ls_azi - 1); i++)
   {
     FLOAT32 angle_diff = ia_sub_flt(ls_azi[i + 1].spk_azi, ls_azi[i].spk_azi);
     if (angle_diff > IMAG_LS_MAX_AZIMUTH_DIFF)
-- 
2.43.0


From 881572f023ac0ac0d1d3588900d2e87b61f6db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 53/70] fix: starting polyhedron of the object renderer
 encloses the listener

For loudspeaker lists without a loudspeaker between the assumed azimuth
ranges the vertices were loudspeaker numbers left over from an earlier step.
---
 decoder/impeghd_obj_ren_dec.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 0f364c1..c6c19fb 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -776,6 +776,27 @@ impeghd_add_imaginary_ls(ia_obj_ren_dec_state_struct *ptr_obj_ren_dec_state, pVO
     }
   }
 
+  /* The starting polyhedron has to enclose the listener */
+  if (min_ele_spk_idx >= ls_azi_order || max_ele_spk_idx >= ls_azi_order ||
+      ls_azi[max_ele_spk_idx].spk_azi - ls_azi[min_ele_spk_idx].spk_azi > 180.0f ||
+      ls_azi[min_ele_spk_idx].spk_azi - ls_azi[0].spk_azi > 180.0f ||
+      ls_azi[max_ele_spk_idx].spk_azi - ls_azi[0].spk_azi < 180.0f)
+  {
+    min_ele_spk_idx = 0;
+    for (i = 1; i < ls_azi_order; i++)
+    {
+      if (ls_azi[i].spk_azi < ls_azi[0].spk_azi + 180.0f)
+      {
+        min_ele_spk_idx = i;
+      }
+    }
+    max_ele_spk_idx = min_ele_spk_idx + 1;
+    if (max_ele_spk_idx >= ls_azi_order)
+    {
+      max_ele_spk_idx = min_ele_spk_idx;
+    }
+  }
+
   ptr_obj_ren_dec_state->tri_ls_index[j++] = ls_azi[0].spk_order;
   ptr_obj_ren_dec_state->tri_ls_index[j++] = ls_azi[min_ele_spk_idx].spk_order;
   ptr_obj_ren_dec_state->tri_ls_index[j++] = ls_azi[max_ele_spk_idx].spk_order;
-- 
2.43.0


From 7970c06fc82746af72ba00321cb59bfacb0986cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 54/70] fix: external renderer is told which objects have
 metadata in each part of a frame

---
 decoder/impeghd_oam_dec_ld.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index ec54ab6..fd3b72c 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -746,7 +746,7 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
     for (i = obj_start_idx; i < obj_end_idx; i++)
     {
       WORD32 obj_md_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
-      ptr_oam_dec_state->has_obj_md[obj_start_idx] = obj_md_present;
+      ptr_oam_dec_state->has_obj_md[i] = obj_md_present;
       if (obj_md_present)
       {
         err_code = impeghd_single_dyn_obj_md(ptr_oam_dec_state, ptr_bit_buf, flag_absolute, i);
@@ -759,6 +759,12 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
   }
   else
   {
+    for (i = 0; i < ptr_oam_dec_state->num_objects; i++)
+    {
+      ptr_oam_dec_state->has_obj_md[(ptr_oam_dec_state->sub_frame_number - 1) *
+                                        ptr_oam_dec_state->num_objects +
+                                    i] = 1;
+    }
     err_code = impeghd_ic_obj_md_ld_dec(ptr_oam_dec_state, ptr_bit_buf);
   }
 
-- 
2.43.0


From 44fcad31ff5a19c3295cf5a9709ad6ba40dbe035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 55/70] fix: channel groups in the reference layout carry its
 loudspeaker configuration

---
 decoder/ia_core_coder_init_config.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index b812944..ee6453c 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1498,6 +1498,11 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           return IA_MPEGH_DEC_INIT_FATAL_INVALID_CONFIG_FOR_NUM_CH;
         }
       }
+      else
+      {
+        ia_signals_3da->audio_ch_layout[audio_ch_layout_cntr] =
+            pstr_audio_specific_config->ref_spk_layout;
+      }
       audio_ch_layout_cntr++;
       break;
     }
-- 
2.43.0


From f5f25031ea028843e42437ec6a2b34a4a708b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 56/70] fix: external renderer gets priority and tracking flag
 of the signal group of the objects

---
 decoder/impeghd_ext_rend_intrfc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_ext_rend_intrfc.c b/decoder/impeghd_ext_rend_intrfc.c
index 1494fc1..17d18eb 100644
--- a/decoder/impeghd_ext_rend_intrfc.c
+++ b/decoder/impeghd_ext_rend_intrfc.c
@@ -612,8 +612,8 @@ IA_ERRORCODE impeghd_write_oam_meta_data_for_ext_ren(
     }
 
     /* Signal group related data */
-    impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->fixed_position[obj], 1);
-    impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->group_priority[obj], 3);
+    impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->fixed_position[grp], 1);
+    impeghd_write_bits_buf(pstr_bit_buf, pstr_3d_signals->group_priority[grp], 3);
 
     /* Enhanced Object Metadata */
     impeghd_write_bits_buf(pstr_bit_buf, (WORD32)pstr_enh_oam_frm->diffuseness[obj], 7);
-- 
2.43.0


From 2af51aef25d25304de0834795dba37dd93246c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 57/70] fix: transmitted downmix matrices longer than their
 buffer are refused

---
 decoder/ia_core_coder_init_config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index ee6453c..ee8642c 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -788,6 +788,10 @@ static IA_ERRORCODE impeghd_parse_dmx_ext_config(ia_bit_buf_struct *it_bit_buff,
                 ia_core_coder_read_bits_buf(it_bit_buff, 5);
           }
           ia_core_coder_read_escape_value(it_bit_buff, &temp, 8, 8, 12);
+          if (temp > (ASCPARSER_MAX_DMX_MATRIX_SIZE << 3))
+          {
+            return IA_MPEGH_DEC_EXE_FATAL_MAX_DMX_MATRIX_ELEMENTS_EXCEEDED;
+          }
           ptr_dmx_cfg->dmx_matrix[i].dmx_matrix_len_bits[l] = temp;
 
           byte_count = 0;
-- 
2.43.0


From 77af04e081ba70a0f0615cc6a73559490475b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 58/70] fix: templates of the compact downmix matrix are found

---
 decoder/impeghd_dmx_mtx.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index a6472e2..c51e69f 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -158,10 +158,11 @@ static FLOAT32 impeghd_decode_gain(ia_bit_buf_struct *ptr_bit_buf, ia_dmx_mtx_ga
  *  \return Error if any
  *
  */
-static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out, WORD32 *tmplt)
+static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out,
+                                            const WORD32 **tmplt)
 {
   WORD32 idx;
-  tmplt = NULL;
+  *tmplt = NULL;
 
   if (cicp_in == -1 || cicp_out == -1)
   {
@@ -178,7 +179,7 @@ static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out, WOR
     {
       continue;
     }
-    tmplt = (WORD32 *)ia_comp_tmplt_data[idx];
+    *tmplt = ia_comp_tmplt_data[idx];
     return IA_MPEGH_DEC_NO_ERROR;
   }
 
@@ -600,7 +601,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
   WORD32 num_in_ch = params->num_in_ch;
   WORD32 num_out_ch = params->num_out_ch;
 
-  WORD32 *comp_tmplt = NULL;
+  const WORD32 *comp_tmplt = NULL;
 
   ia_dmx_mtx_scr_t *pscr = (ia_dmx_mtx_scr_t *)ptr_scratch;
   ptr_scratch += sizeof(*pscr);
@@ -764,7 +765,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_CICP_IDX;
       }
-      impeghd_find_comp_tmplt(params->cicp_in_idx, params->cicp_out_idx, comp_tmplt);
+      impeghd_find_comp_tmplt(params->cicp_in_idx, params->cicp_out_idx, &comp_tmplt);
       if (comp_tmplt == NULL)
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_NO_COMP_TMPLT;
-- 
2.43.0


From 68d009682293aafe9d5ec255d2bccf93ce009e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 59/70] fix: runs of a compact downmix matrix end with the
 matrix

---
 decoder/impeghd_dmx_mtx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index c51e69f..db58bdb 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -312,6 +312,7 @@ static VOID impeghd_decode_flat_compact_mtx(ia_bit_buf_struct *ptr_bit_buf, WORD
       head++;
     }
     val = (head << lpg_param) + ia_core_coder_read_bits_buf(ptr_bit_buf, lpg_param);
+    val = ia_min_int(val, cnt - mtx_idx);
     memset(&mtx[mtx_idx], 0, val * sizeof(mtx[0]));
     mtx_idx += val;
 
-- 
2.43.0


From 8f69d960ef94f8c90d6d9dc1502d5a45d8ce0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 60/70] fix: gain table of downmix matrices holds the largest
 gain range

---
 decoder/impeghd_dmx_mtx_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_dmx_mtx_data.h b/decoder/impeghd_dmx_mtx_data.h
index bad56df..21568d5 100644
--- a/decoder/impeghd_dmx_mtx_data.h
+++ b/decoder/impeghd_dmx_mtx_data.h
@@ -36,7 +36,7 @@
 #define _FORMAT_DMXT_MAT_DATA_H_
 
 #define IA_DMX_MTX_HISTORY_CNT_MAX (512)
-#define IA_DMX_MTX_GAIN_TABLE_SIZE_MAX (274)
+#define IA_DMX_MTX_GAIN_TABLE_SIZE_MAX (278)
 #define IA_DMX_MTX_GAIN_ZERO (-256.0f)
 #define IA_DMX_MAX_NUM_BANDS (100)
 #define IA_MAX_NUM_EQ (12)
-- 
2.43.0


From fb6a5e105d9945e4d97176c87ed0aa907561cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 61/70] fix: gain indices beyond the gain table of a downmix
 matrix stand for no gain

---
 decoder/impeghd_dmx_mtx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index db58bdb..4df33e8 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -136,7 +136,10 @@ static FLOAT32 impeghd_decode_gain(ia_bit_buf_struct *ptr_bit_buf, ia_dmx_mtx_ga
 
     gain_idx = (head << coder->gain_lg_param) +
                ia_core_coder_read_bits_buf(ptr_bit_buf, coder->gain_lg_param);
-    gain = coder->gain_tab[gain_idx];
+    if (gain_idx < coder->gain_tab_size)
+    {
+      gain = coder->gain_tab[gain_idx];
+    }
   }
 
   if (gain < coder->min_gain)
-- 
2.43.0


From 8d58eef5613acf9f8ae950a72580a493818fe1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 62/70] fix: binaural renderer and resampler are set up when
 the configuration is known

Resampling was switched off and the binaural renderer refused when the
first call to the initialisation did not contain the configuration yet.
A refusal also left the number of consumed bytes unset.
---
 decoder/impeghd_api.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6dc4739..501ce82 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -798,7 +798,11 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
 
   err_code = ia_core_coder_dec_init(p_obj_mpegh_dec);
-  if (pstr_input_config->enable_resamp == 1)
+  if (err_code != IA_MPEGH_DEC_NO_ERROR || p_obj_mpegh_dec->p_state_mpeghd->ui_init_done != 1)
+  {
+    /* the configuration is not known yet: neither are sampling rate and channels */
+  }
+  else if (pstr_input_config->enable_resamp == 1)
   {
     IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
     if (p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != pstr_input_config->out_samp_freq)
@@ -819,7 +823,8 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     p_obj_mpegh_dec->mpeghd_config.stream_samp_freq =
         p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
   }
-  if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag && err_code == IA_MPEGH_DEC_NO_ERROR &&
+      p_obj_mpegh_dec->p_state_mpeghd->ui_init_done == 1)
   {
     ia_binaural_in_stream_cfg_str wav_info;
     ia_dec_data_struct *pstr_dec_data =
@@ -851,6 +856,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                               &pstr_dec_data->binaural_handle);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
 
-- 
2.43.0


From cb35d179eb256f296d7ddeeecaf9b35307eac900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 63/70] fix: equalisers of a downmix matrix may outnumber its
 inputs

The check of the equaliser map read one entry per equaliser, not one per
input, and refused matrices depending on what was behind the map.
---
 decoder/impeghd_dmx_mtx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index 4df33e8..dae835c 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -967,9 +967,9 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
       return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_NUM_EQS;
     }
 
-    for (eq = 0; eq < (WORD32)pscr->eq_conf.num_eq; eq++)
+    for (i = 0; i < num_in_ch; i++)
     {
-      if (pscr->eq_conf.eq_map[eq] > (WORD32)pscr->eq_conf.num_eq)
+      if (pscr->eq_conf.eq_map[i] > (WORD32)pscr->eq_conf.num_eq)
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_EQ_CONF;
       }
-- 
2.43.0


From 85fddaa83366d57775f07f854aef0efe5a12f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 64/70] fix: format converter knows the channels of groups
 whatever their fixed position flag

Channels of groups that scene displacement may move were not named at
all, objects and ambisonics were named like loudspeakers, and the layout
of a channel group behind an object group was looked up in the wrong
place.
---
 decoder/ia_core_coder_decode_main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 4538c8a..ad2e825 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -539,7 +539,7 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
   ia_dec_data_struct *pstr_decoder = p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
   ia_format_converter_scratch *pstr_format_converter_scratch =
       p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
-  WORD32 index = 0;
+  WORD32 index = 0, ch_grp = 0;
   if (ds_flag)
   {
 
@@ -567,9 +567,10 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
     for (i = 0; i < (WORD32)pstr_signals_3d->num_sig_group; i++)
     {
 
-      if (pstr_signals_3d->fixed_position[i] == 1)
+      if (pstr_signals_3d->group_type[i] == SIG_GROUP_TYPE_CHN)
       {
-        WORD32 cicp_idx = pstr_signals_3d->audio_ch_layout[i].cicp_spk_layout_idx;
+        WORD32 cicp_idx = pstr_signals_3d->audio_ch_layout[ch_grp].cicp_spk_layout_idx;
+        ch_grp++;
 
         if (pstr_signals_3d->differs_from_ref_layout[i] == 1)
         {
-- 
2.43.0


From f6ee2cc26e82b8d4a1a68eccf38fb5b6e2d6bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 65/70] fix: configuration extensions do not decide whether
 channels are converted

With any extension in the configuration the format converter was off for
a target layout with as many channels as the stream, and on for streams
of objects alone.
---
 decoder/ia_core_coder_init_config.c | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index ee8642c..4847772 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1626,25 +1626,11 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
                                          ui_cicp_layout_idx);
     if (err)
       return err;
-    if ((ui_cicp_layout_idx == pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx) ||
-        !(pstr_usac_conf->str_usac_dec_config.downmix_ext_config_present) ||
-        1 == pstr_usac_conf->str_usac_dec_config.hoa_matrix_ext_config_present)
-    {
-      pstr_usac_conf->signals_3d.format_converter_enable = 0;
-    }
-    else
-    {
-      pstr_usac_conf->signals_3d.format_converter_enable = 1;
-    }
-    if ((impgehd_cicp_get_num_ls[ui_cicp_layout_idx] != 0) &&
-        (mpeghd_state_struct->ch_config !=
-         (UWORD32)(impgehd_cicp_get_num_ls[ui_cicp_layout_idx])) &&
-        (pstr_usac_conf->str_usac_dec_config.hoa_matrix_ext_config_present != 1) &&
-        (mpeghd_state_struct->ch_config != 0) &&
-        (ui_cicp_layout_idx != IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL))
-    {
-      pstr_usac_conf->signals_3d.format_converter_enable = 1;
-    }
+  }
+
+  if (pstr_usac_conf->str_usac_dec_config.hoa_matrix_ext_config_present == 1)
+  {
+    pstr_usac_conf->signals_3d.format_converter_enable = 0;
   }
   else if (pstr_usac_conf->signals_3d.num_ch_based_groups > 1)
   {
-- 
2.43.0


From fdebc8187bcd4db2e55dd3dd784198347f0bb791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 66/70] fix: a new configuration forgets the extensions and
 signal types of the one before

---
 decoder/ia_core_coder_init_config.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 4847772..a700215 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1536,6 +1536,12 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
   {
     ia_signals_3da->format_converter_enable = 1;
   }
+  mpeghd_state_struct->p_config->hoa_data_present = 0;
+  mpeghd_state_struct->p_config->oam_data_present = 0;
+  mpeghd_state_struct->p_config->ch_data_present = 0;
+  mpeghd_state_struct->p_config->hoa_md_payload_length = 0;
+  mpeghd_state_struct->p_config->oam_md_payload_length = 0;
+  mpeghd_state_struct->p_config->ch_md_payload_length = 0;
   if (num_hoa_based_grps > 0)
   {
     mpeghd_state_struct->p_config->hoa_data_present = 1;
@@ -1733,6 +1739,14 @@ VOID ia_core_coder_conf_default(ia_usac_config_struct *pstr_usac_conf)
 
   pstr_usac_conf->str_usac_dec_config.num_elements = 0;
   pstr_usac_conf->num_out_channels = 0;
+
+  /* what an earlier configuration had need not be in this one */
+  pstr_usac_conf->str_usac_dec_config.compat_profile_cfg_present = 0;
+  pstr_usac_conf->str_usac_dec_config.hoa_matrix_ext_config_present = 0;
+  pstr_usac_conf->str_usac_dec_config.downmix_ext_config_present = 0;
+  pstr_usac_conf->str_usac_dec_config.loudness_ext_config_present = 0;
+  pstr_usac_conf->signals_3d.signal_grp_info_present = 0;
+  pstr_usac_conf->enh_obj_md_present = 0;
 }
 
 /**
-- 
2.43.0


From 916f7a70afc3fbeac1e8155e712e5aac4424b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 67/70] fix: layout of a later group of channels is compared
 with that group's signals

---
 decoder/ia_core_coder_init_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index a700215..3d05402 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1494,7 +1494,7 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           }
         }
         if ((impgehd_cicp_get_num_ls[speaker_config_3d->cicp_spk_layout_idx] !=
-                ia_signals_3da->num_ch) &&
+                (WORD32)ia_signals_3da->num_sig[i]) &&
                   (impgehd_cicp_get_num_ls[speaker_config_3d->cicp_spk_layout_idx] >
                     impgehd_cicp_get_num_ls[pstr_audio_specific_config->ref_spk_layout
                       .cicp_spk_layout_idx]))
-- 
2.43.0


From a865f2882fb4abffe0e274e711adbe51aa04469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 68/70] fix: an ambisonics scene is added to the channels of
 its bed

---
 decoder/ia_core_coder_decode_main.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index ad2e825..159dea1 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2308,16 +2308,16 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         }
         if (pstr_usac_config->signals_3d.num_ch != 0)
         {
-          if (ptr_out_buf != NULL)
+          for (channel = 0; channel < *num_channel_out; channel++)
           {
-            for (channel = 0; channel < *num_channel_out; channel++)
+            /* a converted bed is added later, with its delay */
+            FLOAT32 *ptr_bed =
+                (pstr_asc->str_usac_config.signals_3d.format_converter_enable == 1)
+                    ? &pstr_dec_data->fc_obj_signal[channel][FC_DELAY]
+                    : &pstr_dec_data->str_usac_data.time_sample_vector[channel][0];
+            for (s = 0; s < num_samples_out; s++)
             {
-              for (s = 0; s < num_samples_out; s++)
-              {
-                pstr_dec_data->str_usac_data.time_sample_vector[channel][s] =
-                ia_add_flt(pstr_dec_data->str_usac_data.time_sample_vector[channel][s],
-                  ptr_out_buf[channel * num_samples_out + s]);
-              }
+              ptr_bed[s] = ia_add_flt(ptr_bed[s], ptr_out_buf_hoa[channel * num_samples_out + s]);
             }
           }
           ch_offset += pstr_usac_config->signals_3d.num_hoa_transport_ch;
-- 
2.43.0


From 12b9d81d8d6bf2129fe2799d51ec341333a03907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 69/70] fix: vectors of an ambisonics frame are matched with
 their own signals

---
 decoder/impeghd_hoa_spatial_decoder.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_hoa_spatial_decoder.c b/decoder/impeghd_hoa_spatial_decoder.c
index 5219e69..e1e4652 100644
--- a/decoder/impeghd_hoa_spatial_decoder.c
+++ b/decoder/impeghd_hoa_spatial_decoder.c
@@ -445,7 +445,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
                   ia_hoa_weighting_cdbk_256x8[ia_hoa_frame_t->weight_idx[ch] * 8 + vec_idx];
             }
 
-            weight_value *= 2 * ia_hoa_frame_t->sgn_val[ch][vec_idx] - 1;
+            weight_value *= 2 * ia_hoa_frame_t->sgn_val[vec_ch][vec_idx] - 1;
             if ((v_idx < 0) || ((v_idx + (pstr_hoa_config->num_coeffs - 1)) >
                                 (curr_vq_vec_ptr_size / sizeof(FLOAT32))))
             {
@@ -476,7 +476,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
         else
         {
           curr_vq_vec_ptr += (((WORD32)(mat_offset)) * v_idx);
-          weight_value = (FLOAT32)(2 * ia_hoa_frame_t->sgn_val[ch][0] - 1);
+          weight_value = (FLOAT32)(2 * ia_hoa_frame_t->sgn_val[vec_ch][0] - 1);
           for (UWORD32 ele = 0; ele < pstr_spatial_dec->num_vec_elems; ele++)
           {
             tmp_vec[ele] =
@@ -487,7 +487,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
         {
           for (UWORD32 elem_idx = 0; elem_idx < pstr_spatial_dec->num_vec_elems; ++elem_idx)
           {
-            if (!ia_hoa_frame_t->additional_info[ch][elem_idx])
+            if (!ia_hoa_frame_t->additional_info[vec_ch][elem_idx])
             {
               tmp_vec[elem_idx] = 0.0;
             }
@@ -513,7 +513,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
               pow_result <<= 1;
             }
             tmp_vec[elem_idx] = (FLOAT32)ia_sub_flt(
-                ((FLOAT32)(ia_hoa_frame_t->c_8bit_quantizer_word[ch][elem_idx]) /
+                ((FLOAT32)(ia_hoa_frame_t->c_8bit_quantizer_word[vec_ch][elem_idx]) /
                  (FLOAT32)(pow_result)),
                 1.0);
           }
@@ -534,7 +534,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
           nominator = 0.0;
           if (ia_hoa_frame_t->decoded_huffmann_word[ch][elem_idx])
           {
-            WORD32 sign = ia_hoa_frame_t->sgn_val[ch][elem_idx] * 2 - 1;
+            WORD32 sign = ia_hoa_frame_t->sgn_val[vec_ch][elem_idx] * 2 - 1;
             WORD32 val =
                 sign * ((WORD32)(impeghd_hoa_pow_2(
                                      ia_hoa_frame_t->decoded_huffmann_word[ch][elem_idx] - 1) +
-- 
2.43.0


From acb5ab467d36e22493f16b53ec2eb3984bb1f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 70/70] fix: the faded-in coefficients of an ambisonics frame
 are kept for every coefficient

The coefficients are counted from one, so the last one of order 6 was read and written past the end of the array, in the flags of the new vectors; the vectors behind it were then misread.
---
 decoder/impeghd_hoa_dec_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index b7a206e..b20491d 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -42,7 +42,7 @@ typedef struct
   UWORD8 additional_info[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 non_transitional_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
-  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS];
+  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
   UWORD32 new_vec_channels[HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 additional_value[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
-- 
2.43.0

