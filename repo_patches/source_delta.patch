From 3c023e2f3f982d968b2a74ee09a126a694de6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 01/50] fix: bit reader returns wrong values for 25..32 bit
 requests at unaligned positions

---
 decoder/ia_core_coder_bitbuffer.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/decoder/ia_core_coder_bitbuffer.c b/decoder/ia_core_coder_bitbuffer.c
index 6e95ce5..608b976 100644
--- a/decoder/ia_core_coder_bitbuffer.c
+++ b/decoder/ia_core_coder_bitbuffer.c
@@ -101,7 +101,7 @@ WORD32 ia_core_coder_skip_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
  */
 WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of_bits)
 {
-  UWORD32 return_val;
+  UWORD64 return_val;
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
 
@@ -134,9 +134,9 @@ WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
     bit_position += 8;
   }
 
-  return_val = return_val << ((31 - num_of_bits) - bit_position) >> (32 - num_of_bits);
+  return_val = (return_val >> (bit_position + 1)) & (((UWORD64)1 << num_of_bits) - 1);
 
-  return return_val;
+  return (WORD32)return_val;
 }
 
 /**
@@ -154,7 +154,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
 {
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
-  UWORD32 return_val;
+  UWORD64 return_val;
 
   if (num_of_bits == 0)
   {
@@ -189,9 +189,9 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
   }
   pstr_bit_buff->bit_pos = (WORD16)bit_position;
   pstr_bit_buff->ptr_read_next = ptr_read_next;
-  return_val = return_val << ((31 - num_of_bits) - bit_position) >> (32 - num_of_bits);
+  return_val = (return_val >> (bit_position + 1)) & (((UWORD64)1 << num_of_bits) - 1);
 
-  return return_val;
+  return (WORD32)return_val;
 }
 /**
 *  ia_core_coder_read_bits_buf_32
@@ -206,7 +206,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
 UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
 {
   WORD32 num_of_bits = 32;
-  UWORD32 return_val;
+  UWORD64 return_val;
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
 
@@ -234,12 +234,13 @@ UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
   {
     bit_position += 8;
     ptr_read_next++;
+    return_val <<= 8;
   }
 
   pstr_bit_buff->ptr_read_next = ptr_read_next;
   pstr_bit_buff->bit_pos = (WORD16)bit_position;
 
-  return return_val;
+  return (UWORD32)(return_val >> (bit_position + 1));
 }
 
 /**
-- 
2.43.0


From 37bc525b7f34b3dbd6a9d70ef344947e4f2b1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 02/50] fix: audio scene group with 128 members wraps its
 member count

---
 decoder/impeghd_mhas_parse.c | 2 +-
 decoder/impeghd_mhas_parse.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 3a26f06..f9c56c7 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -387,7 +387,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_def(ia_mae_group_def *pstr_group_defin
     }
 
     pstr_group_definition[grp].group_num_members =
-        (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 7) + 1;
+        (WORD16)ia_core_coder_read_bits_buf(pstr_bit_buf, 7) + 1;
 
     if ((pstr_group_definition[grp].has_conjunct_members =
              (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index e3e4006..e19b92a 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -114,7 +114,7 @@ typedef struct
   WORD8 allow_pos_interact;
   WORD8 default_on_off;
   WORD8 group_id;
-  WORD8 group_num_members;
+  WORD16 group_num_members;
   WORD8 has_conjunct_members;
   WORD8 has_content_language;
   WORD8 max_az_offset;
-- 
2.43.0


From b5514fa17c7c286db2cdd17b6ef41187252945d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 03/50] fix: audio scene description text of 128 bytes or more
 is skipped

---
 decoder/impeghd_mhas_parse.c | 2 +-
 decoder/impeghd_mhas_parse.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index f9c56c7..289fccc 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -93,7 +93,7 @@ static IA_ERRORCODE impeghd_mae_parse_description_data(ia_description_data *pstr
       pstr_description_data->descr_language[blk][cnt] =
           ia_core_coder_read_bits_buf(pstr_bit_buf, 24);
       pstr_description_data->descr_data_length[blk][cnt] =
-          (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
+          (WORD16)ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
 
       for (WORD32 idx = 0; idx < pstr_description_data->descr_data_length[blk][cnt]; idx++)
       {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index e19b92a..cbd6267 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -221,7 +221,7 @@ typedef struct
 typedef struct
 {
   UWORD8 num_descr_blks;
-  WORD8 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
+  WORD16 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 descr_data[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES][MAX_DESCRIPTON_DATA_LEN];
   WORD32 descr_language[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 grp_id[MAX_NUM_DESCRIPTOIN_BLOCKS];
-- 
2.43.0


From 197c96924bb9ea4d563e27b23b12e3f1d4758262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 04/50] fix: audio scene data set of 32768 bytes or more loses
 bitstream position

---
 decoder/impeghd_mhas_parse.c | 2 +-
 decoder/impeghd_mhas_parse.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 289fccc..97fd8f8 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -983,7 +983,7 @@ static IA_ERRORCODE impeghd_mae_asi_data_parse(ia_mae_audio_scene_info *pstr_mae
     WORD32 cnt_bits = 0;
     pstr_mae_data->data_type[cnt] = (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 4);
     data_len = ia_core_coder_read_bits_buf(pstr_bit_buf, 16);
-    pstr_mae_data->data_length[cnt] = (WORD16)data_len;
+    pstr_mae_data->data_length[cnt] = data_len;
     cnt_bits = pstr_bit_buf->cnt_bits;
     switch (pstr_mae_data->data_type[cnt])
     {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index cbd6267..d809e0c 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -205,7 +205,7 @@ typedef struct
 {
   WORD8 num_data_sets;
   WORD8 data_type[MAX_MAE_NUM_DATASETS];
-  WORD16 data_length[MAX_MAE_NUM_DATASETS];
+  WORD32 data_length[MAX_MAE_NUM_DATASETS];
 } ia_mae_data;
 
 typedef struct
-- 
2.43.0


From 969bdd266c89cbd07774efd2260f9e95816e995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 05/50] fix: earcon info accepts 17 earcons for 16 entries and
 reuses a stale language count

---
 decoder/impeghd_mhas_parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 97fd8f8..f93329a 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -897,7 +897,7 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
   WORD32 num_earcons = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
-  if (num_earcons > MAX_NUM_EARCONS)
+  if (num_earcons + 1 > MAX_NUM_EARCONS)
   {
     return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_EARCONS;
   }
@@ -935,6 +935,7 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
       pstr_earcon_info->earcon_gain[cnt] = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
     }
 
+    pstr_earcon_info->earcon_num_languages[cnt] = 0;
     if ((pstr_earcon_info->earcon_has_text_label = ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
     {
       pstr_earcon_info->earcon_num_languages[cnt] = ia_core_coder_read_bits_buf(pstr_bit_buf, 4);
-- 
2.43.0


From 3c3016ca0efcf24d28e3f8cb24a771adf16f7d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 06/50] fix: PCM data packet uses its frame length as a table
 index and overruns the sample buffer

---
 decoder/ia_core_coder_decode_main.c | 17 ++++++++++++++++-
 decoder/impeghd_mhas_parse.c        | 14 ++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 137f834..b9abf8f 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1310,7 +1310,22 @@ static IA_ERRORCODE impeghd_earcon_obj_md_dec_ren_process(ia_dec_data_struct *ps
   ia_oam_dec_state_struct *pstr_obj_md_dec_state = &pstr_obj_ren_dec_state->str_obj_md_dec_state;
 
   num_objects = pstr_obj_md_dec_state->num_objects;
-  ccfl = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+  switch (pstr_pcm_data_config->pcm_frame_size_idx)
+  {
+  case 5:
+    ccfl = pstr_pcm_data_config->pcm_fix_frame_size;
+    break;
+  case 6:
+    ccfl = pstr_pcm_data_config->pcm_var_frame_size;
+    break;
+  case 7:
+    ccfl = 0;
+    break;
+  default:
+    ccfl = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    break;
+  }
+  ccfl = (ccfl > MAX_NUM_PCM_SAMPLES) ? 0 : ccfl;
   ptr_in_buf = &pstr_pcm_data_config->pcm_sample[0][0];
 
   ia_core_coder_memset(ptr_out_buf, (ccfl * pstr_obj_ren_dec_state->num_cicp_speakers));
diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index f93329a..92e7862 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -777,18 +777,24 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
     return IA_MPEGH_DEC_NO_ERROR;
     break;
   case 5:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_fix_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_fix_frame_size = pstr_pcm_data_config->pcm_fix_frame_size;
     break;
   case 6:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_var_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_fix_frame_size = pstr_pcm_data_config->pcm_var_frame_size;
+    break;
+  case 7:
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG;
     break;
   default:
     pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
     break;
   }
 
+  if (pcm_fix_frame_size > MAX_NUM_PCM_SAMPLES)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG;
+  }
+
   WORD32 pcm_sample, temp, temp_num;
   for (cnt = 0; cnt < pcm_fix_frame_size; cnt++)
   {
-- 
2.43.0


From cff2a137eed8bf67f7c99d3e0db6e9c9546aad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 07/50] fix: PCM config accepts more signals than the object
 renderer holds

---
 decoder/impeghd_mhas_parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 92e7862..ac28572 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -852,6 +852,11 @@ IA_ERRORCODE impeghd_pcm_data_config(ia_pcm_data_config *pstr_pcm_data_config,
                                      ia_bit_buf_struct *pstr_bit_buf)
 {
   pstr_pcm_data_config->bs_num_pcm_signals = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
+  if (pstr_pcm_data_config->bs_num_pcm_signals > (MAX_NUM_CHANNELS - 1))
+  {
+    pstr_pcm_data_config->bs_num_pcm_signals = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG;
+  }
   pstr_pcm_data_config->pcm_align_audio_flag = ia_core_coder_read_bits_buf(pstr_bit_buf, 1);
   pstr_pcm_data_config->pcm_sampling_rate_idx = ia_core_coder_read_bits_buf(pstr_bit_buf, 5);
   pstr_pcm_data_config->pcm_sampling_rate =
-- 
2.43.0


From f08b3f0e8d88f38c55b5092a64671e39aae48bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 08/50] fix: MHAS loudness packet leaves the read position
 before the end of the packet

---
 decoder/impeghd_mhas_parse.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index ac28572..91d9fc4 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -1375,8 +1375,19 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
     case MHAS_PAC_TYP_LOUDNESS:
     {
       ia_drc_payload_struct str_drc_payload;
+      WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
       err_code = impd_drc_mpegh3da_parse_loudness_info_set(&str_drc_payload.str_loud_info,
                                                            pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
+      cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
+      if (cnt_bits < (pkt_len << 3))
+      {
+        WORD32 skip_bits = (pkt_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(pstr_bit_buf, skip_bits);
+      }
     }
     break;
     default:
-- 
2.43.0


From e9c5e6d31e40b99a49f5396e00952533880511a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 09/50] fix: configuration packets longer than 768 bytes
 overrun the cached configuration

---
 decoder/ia_core_coder_decode_main.c  | 4 ++++
 decoder/ia_core_coder_headerdecode.c | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index b9abf8f..1389784 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2520,6 +2520,10 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       {
         WORD32 bytes_consumed;
         WORD32 flush = 0;
+        if (pac_info.packet_length > MAX_CFG_DATA_LENGTH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+        }
         if (mpegh_dec_handle->prev_cfg_len)
         {
           WORD32 i = 0;
diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index c34b318..3027886 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -183,6 +183,11 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
         return IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND;
       }
+      if (info.packet_length > MAX_CFG_DATA_LENGTH)
+      {
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+        return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+      }
     }
     {
       bit_offset = handle_bit_buff->cnt_bits;
-- 
2.43.0


From 7075dacb830fb8888d2d5828e0342e0f073b0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 10/50] fix: element interaction truncates zoom and wire fields
 and accepts unknown groups

---
 decoder/impeghd_ele_interaction_intrfc.c | 30 ++++++++++++++----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index d376745..2a8975a 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -303,10 +303,10 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
                                                     ia_ele_intrctn *ptr_ele_intrctn,
                                                     ia_mae_audio_scene_info *str_mae_asi)
 {
-  WORD32 valid_id = 0;
   WORD32 num_grps = ptr_ele_intrctn->ei_num_groups;
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
+    WORD32 asi_grp = -1;
     ptr_ele_intrctn->ei_grp_id[grp] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 7);
     if (str_mae_asi->asi_present)
     {
@@ -314,11 +314,12 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       {
         if (str_mae_asi->group_definition[grp1].group_id == ptr_ele_intrctn->ei_grp_id[grp])
         {
-          valid_id++;
+          asi_grp = grp1;
+          break;
         }
       }
       /*ei_groupID shall contain a valid groupID (ID of a group defined in the bitstream)*/
-      if (!valid_id)
+      if (asi_grp < 0)
       {
         return IA_MPEGH_EI_INIT_FATAL_INVALID_ID;
       }
@@ -332,7 +333,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
     else
     {
       ptr_ele_intrctn->route_to_wire_id[grp] =
-          (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
+          (WORD32)ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
     }
     if (ptr_ele_intrctn->ei_on_off[grp] == 1)
     {
@@ -342,7 +343,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       corresponding
       group equals 1*/
       if (str_mae_asi->asi_present &&
-          ((str_mae_asi->group_definition[grp].allow_pos_interact == 1) &&
+          ((str_mae_asi->group_definition[asi_grp].allow_pos_interact == 1) &&
            (!ptr_ele_intrctn->ei_change_pos[grp])))
       {
         return IA_MPEGH_EI_INIT_FATAL_INVALID_CHANGE_POSITION;
@@ -361,7 +362,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       group equals 1*/
 
       if (str_mae_asi->asi_present &&
-          ((str_mae_asi->group_definition[grp].allow_gain_interact == 1) &&
+          ((str_mae_asi->group_definition[asi_grp].allow_gain_interact == 1) &&
            (!ptr_ele_intrctn->ei_change_gain[grp])))
       {
         return IA_MPEGH_EI_INIT_FATAL_INVALID_CHANGE_GAIN;
@@ -392,6 +393,7 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
                                                  ia_ele_intrctn *ptr_ele_intrctn,
                                                  ia_mae_audio_scene_info *str_mae_asi)
 {
+  IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   WORD32 valid_id = 0;
   ptr_ele_intrctn->ei_intrctn_mode = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
 
@@ -416,7 +418,7 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     ptr_ele_intrctn->ei_group_preset_id = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 5);
     if (str_mae_asi->asi_present)
     {
-      for (WORD32 grp = 0; grp < str_mae_asi->num_groups; grp++)
+      for (WORD32 grp = 0; grp < str_mae_asi->num_group_presets; grp++)
       {
         if (str_mae_asi->group_presets_definition[grp].group_id ==
             ptr_ele_intrctn->ei_group_preset_id)
@@ -433,7 +435,11 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     }
   }
 
-  impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  err_code = impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  if (err_code)
+  {
+    return err_code;
+  }
   ptr_ele_intrctn->ei_data_present = 1;
   return IA_MPEGH_DEC_NO_ERROR;
 }
@@ -453,10 +459,10 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
 static IA_ERRORCODE impeghd_lcl_zoom_area_size(ia_bit_buf_struct *ptr_bit_buf,
                                                ia_ele_intrctn *ptr_ele_intrctn)
 {
-  ptr_ele_intrctn->zoom_az_center = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
-  ptr_ele_intrctn->zoom_az = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
-  ptr_ele_intrctn->zoom_el_center = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 9);
-  ptr_ele_intrctn->zoom_el = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_az_center = (WORD32)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_az = (WORD32)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_el_center = (WORD32)ia_core_coder_read_bits_buf(ptr_bit_buf, 9);
+  ptr_ele_intrctn->zoom_el = (WORD32)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
-- 
2.43.0


From 99e91c6493386b68244708112f2fa05de7b43502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:30 +0000
Subject: [PATCH 11/50] fix: low delay object metadata mishandles later
 sub-frames, spread depth width and priority

---
 decoder/impeghd_oam_dec_ld.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 29e074b..8f85a20 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -70,13 +70,15 @@
  */
 static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
 {
-  WORD32 n, num_elements;
+  WORD32 n;
+  WORD32 start_idx, end_idx;
   FLOAT32 minval, maxval;
-  num_elements = ptr_oam_dec_state->num_objects;
+  start_idx = (ptr_oam_dec_state->sub_frame_number - 1) * ptr_oam_dec_state->num_objects;
+  end_idx = ptr_oam_dec_state->sub_frame_number * ptr_oam_dec_state->num_objects;
   /* radius */
   maxval = 16.f;
   minval = 0.5f;
-  for (n = 0; n < num_elements; n++)
+  for (n = start_idx; n < end_idx; n++)
   {
     ptr_oam_dec_state->radius_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->radius_descaled[n], minval), maxval);
@@ -84,7 +86,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* elevation */
   maxval = 90;
   minval = -90;
-  for (n = 0; n < num_elements; n++)
+  for (n = start_idx; n < end_idx; n++)
   {
     ptr_oam_dec_state->elevation_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->elevation_descaled[n], minval), maxval);
@@ -92,7 +94,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* azimuth */
   maxval = 180;
   minval = -180;
-  for (n = 0; n < num_elements; n++)
+  for (n = start_idx; n < end_idx; n++)
   {
     ptr_oam_dec_state->azimuth_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->azimuth_descaled[n], minval), maxval);
@@ -100,7 +102,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* gain */
   maxval = 5.957f;
   minval = 0.004f;
-  for (n = 0; n < num_elements; n++)
+  for (n = start_idx; n < end_idx; n++)
   {
     ptr_oam_dec_state->gain_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->gain_descaled[n], minval), maxval);
@@ -108,7 +110,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* spread */
   maxval = 180;
   minval = 0;
-  for (n = 0; n < num_elements; n++)
+  for (n = start_idx; n < end_idx; n++)
   {
     ptr_oam_dec_state->spread_width_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->spread_width_descaled[n], minval), maxval);
@@ -118,7 +120,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread depth */
     maxval = 15.5f;
     minval = 0.0f;
-    for (n = 0; n < num_elements; n++)
+    for (n = start_idx; n < end_idx; n++)
     {
       ptr_oam_dec_state->spread_depth_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_depth_descaled[n], minval), maxval);
@@ -126,7 +128,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread height */
     maxval = 90;
     minval = 0;
-    for (n = 0; n < num_elements; n++)
+    for (n = start_idx; n < end_idx; n++)
     {
       ptr_oam_dec_state->spread_height_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_height_descaled[n], minval), maxval);
@@ -135,7 +137,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* dynamic object priority */
   maxval = 7.0f;
   minval = 0.0f;
-  for (n = 0; n < num_elements; n++)
+  for (n = start_idx; n < end_idx; n++)
   {
     ptr_oam_dec_state->dyn_obj_priority_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->dyn_obj_priority_descaled[n], minval), maxval);
@@ -447,7 +449,7 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         ptr_oam_dec_state->spread_height[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
         ptr_oam_dec_state->spread_depth[obj_idx] =
-            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
+            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_DEPTH_BITS);
       }
       else
       {
@@ -457,7 +459,7 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
     }
     if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present)
     {
-      if (!ptr_oam_dec_state->dynamic_obj_priority_fixed)
+      if (ptr_oam_dec_state->dynamic_obj_priority_fixed)
       {
         ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
       }
@@ -630,7 +632,7 @@ static IA_ERRORCODE impeghd_ic_obj_md_ld_dec(ia_oam_dec_state_struct *ptr_oam_de
       if (ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
         param_val = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_WIDTH_BITS);
-        for (i = 0; i < num_objects; i++)
+        for (i = obj_idx_start; i < obj_idx_end; i++)
         {
           ptr_oam_dec_state->spread_width[i] = param_val;
         }
@@ -742,7 +744,7 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
     for (i = obj_start_idx; i < obj_end_idx; i++)
     {
       WORD32 obj_md_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
-      ptr_oam_dec_state->has_obj_md[obj_start_idx] = obj_md_present;
+      ptr_oam_dec_state->has_obj_md[i] = obj_md_present;
       if (obj_md_present)
       {
         err_code = impeghd_single_dyn_obj_md(ptr_oam_dec_state, ptr_bit_buf, flag_absolute, i);
-- 
2.43.0


From bdb24c8078e2f91faa27f94c077ca17c1a263f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 12/50] fix: kept exclusion sectors lose their
 predefined-sector flag

---
 decoder/impeghd_oam_dec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder/impeghd_oam_dec.c b/decoder/impeghd_oam_dec.c
index ddb2a34..38b24d2 100644
--- a/decoder/impeghd_oam_dec.c
+++ b/decoder/impeghd_oam_dec.c
@@ -272,6 +272,8 @@ IA_ERRORCODE impeghd_enh_obj_md_frame(ia_enh_obj_md_frame_str *p_enh_oj_md_frame
             p_enh_oj_md_frame->exclude_sector_min_az[obj][j];
         p_enh_oj_md_frame->prev_exclude_sector_index[obj][j] =
             p_enh_oj_md_frame->exclude_sector_index[obj][j];
+        p_enh_oj_md_frame->prev_use_predefined_sector[obj][j] =
+            p_enh_oj_md_frame->use_predefined_sector[obj][j];
       }
       p_enh_oj_md_frame->prev_num_exclusion_sectors[obj] =
           p_enh_oj_md_frame->num_exclusion_sectors[obj];
-- 
2.43.0


From 0363cd9abcccc1243f5fb98a042d5dead0879bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 13/50] fix: object metadata configuration ignores invalid
 frame lengths and too many objects

---
 decoder/ia_core_coder_init_config.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c32dbc1..f8e5ff6 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -305,7 +305,15 @@ IA_ERRORCODE ia_core_coder_ext_element_config(
   {
     *ptr_usac_ext_ele_payload_len = usac_ext_element_config_length;
     cnt_bits = it_bit_buff->cnt_bits;
-    impeghd_obj_md_cfg(p_obj_md_cfg, it_bit_buff, ccfl, num_objects);
+    if (num_objects > MAX_NUM_OAM_OBJS)
+    {
+      return IA_MPEGH_OAM_INIT_FATAL_UNSUPPORTED_NUM_OBJS;
+    }
+    err_code = impeghd_obj_md_cfg(p_obj_md_cfg, it_bit_buff, ccfl, num_objects);
+    if (err_code)
+    {
+      return err_code;
+    }
     cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
     if (cnt_bits > (WORD32)(usac_ext_element_config_length << 3))
     {
-- 
2.43.0


From 6a61af5ba51a1b9173826f858c68030eddbbd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 14/50] fix: loudspeaker lists are looked up as layouts and
 overrun the geometry tables

---
 decoder/ia_core_coder_init_config.c      | 58 +++++++++++++-----------
 decoder/impeghd_ele_interaction_intrfc.c | 17 ++++++-
 2 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index f8e5ff6..ebb905b 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1739,6 +1739,7 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
                                        ia_interface_speaker_config_3d *spk_config_3d)
 {
   UWORD32 i;
+  IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   spk_config_3d->spk_layout_type = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 2);
   if (spk_config_3d->spk_layout_type == 0)
@@ -1773,8 +1774,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     }
     }
   }
-  impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
-                               &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  err = impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
+                                     &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  if (err != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err;
+  }
 
   spk_config_3d->num_speakers = spk_config_3d->num_ch + spk_config_3d->num_lfes;
 
@@ -1909,12 +1914,11 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
                                           WORD32 *num_lfes)
 {
   UWORD32 i;
-  ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-  WORD32 in_num_channels, in_num_lfes;
+  const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry;
   if (speaker_config_3d->spk_layout_type == 0)
   {
-    impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx, ptr_geometry,
-                                          num_channels, num_lfes);
+    return impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx,
+                                                 ptr_geometry, num_channels, num_lfes);
   }
   else if (speaker_config_3d->spk_layout_type < 3)
   {
@@ -1937,18 +1941,21 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
         }
         else
         {
-          const WORD32 **in_channel_names;
-          impeghd_cicpidx_2_ls_geometry(
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx,
-              (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i], &in_num_channels,
-              &in_num_lfes, (const WORD32 **)&in_channel_names);
+          if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx >=
+              CICP_MAX_CH)
+          {
+            return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
+          }
+          ptr_cicp_ls_geometry =
+              &ia_cicp_ls_geo_tbls[speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i]
+                                       .cicp_spk_idx];
           ptr_geometry[i].cicp_loudspeaker_idx =
               speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-          ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+          ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
           ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         }
         if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe != 0)
         {
@@ -1964,18 +1971,17 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
       *num_channels = speaker_config_3d->num_speakers;
       for (i = 0; i < speaker_config_3d->num_speakers; i++)
       {
-        const WORD32 **in_channel_names;
-        impeghd_cicpidx_2_ls_geometry(speaker_config_3d->cicp_spk_idx[i],
-                                      (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i],
-                                      &in_num_channels, &in_num_lfes,
-                                      (const WORD32 **)&in_channel_names);
-        ptr_geometry[i].cicp_loudspeaker_idx =
-            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-        ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+        if (speaker_config_3d->cicp_spk_idx[i] >= CICP_MAX_CH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
+        }
+        ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[speaker_config_3d->cicp_spk_idx[i]];
+        ptr_geometry[i].cicp_loudspeaker_idx = speaker_config_3d->cicp_spk_idx[i];
+        ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
         ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
             (speaker_config_3d->cicp_spk_idx[i] == 26))
         {
diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 2a8975a..50be2e4 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -104,9 +104,18 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
                                          ia_local_setup_struct *pstr_local_setup_data)
 {
   UWORD32 ld_spk;
+  IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
-  impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (num_loudspk > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+  }
+  err_code = impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err_code;
+  }
   has_loud_spk_dist = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   has_loud_spk_calibration_gain = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   pstr_local_setup_data->use_tracking_mode = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -572,7 +581,11 @@ IA_ERRORCODE impeghd_3da_local_setup_information(ia_bit_buf_struct *ptr_bit_buf,
     }
     break;
   case 0:
-    impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    err_code = impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
     impeghd_loud_spk_inv_quant(pstr_local_setup_data);
     break;
   }
-- 
2.43.0


From c5d84eb1bc2e0b26d61f006b5e141ebc4bff40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 15/50] fix: flexible speaker descriptions use a stale
 direction and ignore errors

---
 decoder/ia_core_coder_init_config.c | 69 ++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index ebb905b..c176fee 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1087,6 +1087,10 @@ static IA_ERRORCODE impeghd_spk_description(VOID *buf_handle, ia_flex_spk_cfg_st
   WORD32 az_ang_idx_to_deg;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   pstr_spk_desc->is_cicp_spk_idx = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 1);
+  pstr_spk_desc->el_angle_idx = 0;
+  pstr_spk_desc->el_direction = 0;
+  pstr_spk_desc->az_direction = 0;
+  pstr_spk_desc->is_lfe = 0;
 
   if (!pstr_spk_desc->is_cicp_spk_idx)
   {
@@ -1171,15 +1175,20 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                             ia_flex_spk_data_str *pstr_flex_spk_data,
                                             WORD32 num_spk)
 {
-  WORD32 i = 0, in_num_channels = 0, in_num_lfes = 0, azimuth;
+  IA_ERRORCODE err = IA_MPEGH_DEC_NO_ERROR;
+  WORD32 i = 0, azimuth;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   pstr_flex_spk_data->angular_precision = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 1);
 
   while (i < num_spk)
   {
     azimuth = 0;
-    impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
-                            pstr_flex_spk_data->angular_precision);
+    err = impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
+                                  pstr_flex_spk_data->angular_precision);
+    if (err != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err;
+    }
 
     if (!(pstr_flex_spk_data->str_flex_spk_descr[i].is_cicp_spk_idx))
     {
@@ -1188,23 +1197,15 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                        pstr_flex_spk_data->angular_precision);
       pstr_flex_spk_data->str_flex_spk_descr[i].az_angle_idx = azimuth;
     }
-    else if ((pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx < NUM_LS_CFGS) &&
-             (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 0) &&
-             (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 8))
+    else if (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx < CICP_MAX_CH)
     {
-      const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-
-      ptr_cicp_ls_geometry[i] =
+      const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry =
           &ia_cicp_ls_geo_tbls[pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx];
-      if (!ptr_cicp_ls_geometry[i]->lfe_flag)
-      {
-        in_num_channels++;
-      }
-      else
-      {
-        in_num_lfes++;
-      }
-      azimuth = (WORD32)(ptr_cicp_ls_geometry[i]->ls_azimuth);
+      azimuth = (WORD32)(ptr_cicp_ls_geometry->ls_azimuth);
+    }
+    else
+    {
+      return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
     }
 
     if ((azimuth != 0) && (azimuth != 180))
@@ -1213,9 +1214,15 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
       if (pstr_flex_spk_data->also_add_symetric_pair)
       {
         i++;
+        if (i >= num_spk)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+        }
         pstr_flex_spk_data->str_flex_spk_descr[i] = pstr_flex_spk_data->str_flex_spk_descr[i - 1];
         pstr_flex_spk_data->str_flex_spk_descr[i].az_direction =
             1 - pstr_flex_spk_data->str_flex_spk_descr[i].az_direction;
+        pstr_flex_spk_data->str_flex_spk_descr[i].az_angle_idx =
+            -pstr_flex_spk_data->str_flex_spk_descr[i].az_angle_idx;
       }
     }
     i++;
@@ -1316,9 +1323,13 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
     }
     if (pstr_audio_specific_config->ref_spk_layout.spk_layout_type == 2)
     {
-      impeghd_flexispk_config(it_bit_buff,
-                              &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
-                              pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      err = impeghd_flexispk_config(it_bit_buff,
+                                    &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
+                                    pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        return err;
+      }
       pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx =
           pstr_audio_specific_config->ref_spk_layout.num_speakers;
       if (pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx <= 0 ||
@@ -1446,8 +1457,12 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           {
           case 2:
           {
-            impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
-                                    speaker_config_3d->num_speakers);
+            err = impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
+                                          speaker_config_3d->num_speakers);
+            if (err != IA_MPEGH_DEC_NO_ERROR)
+            {
+              return err;
+            }
             break;
           }
           case 1:
@@ -1760,8 +1775,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     {
     case 2:
     {
-      impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
-                              spk_config_3d->num_speakers);
+      err = impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
+                                    spk_config_3d->num_speakers);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        return err;
+      }
       break;
     }
     case 1:
-- 
2.43.0


From 0b7c447fe0c7a253b9f8148137fa7318dab31fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 16/50] fix: LFE loudspeakers listed by CICP index are counted
 as full-range channels

---
 decoder/ia_core_coder_init_config.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c176fee..b64bf83 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1976,7 +1976,7 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
           ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
           ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         }
-        if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe != 0)
+        if (ptr_geometry[i].lfe != 0)
         {
           (*num_lfes)++;
           (*num_channels)--;
@@ -2001,8 +2001,7 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
         ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
         ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
         ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
-        if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
-            (speaker_config_3d->cicp_spk_idx[i] == 26))
+        if (ptr_geometry[i].lfe != 0)
         {
           (*num_lfes)++;
           (*num_channels)--;
-- 
2.43.0


From 2076495004e24cc1f0722b3e4a51554e68341493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 17/50] fix: read the four inputs of the 4-point inverse FFT at
 their own positions

---
 decoder/impeghd_ifft.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index 0ab3723..1037dc6 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1220,12 +1220,12 @@ VOID impeghd_cplx_ifft_4(FLOAT32 *x_r, FLOAT32 *x_i)
   // 4 Point FFT
   x_0 = x_r[0];
   x_1 = x_i[0];
-  x_2 = x_r[2];
-  x_3 = x_i[2];
-  x_4 = x_r[4];
-  x_5 = x_i[4];
-  x_6 = x_r[6];
-  x_7 = x_i[6];
+  x_2 = x_r[1];
+  x_3 = x_i[1];
+  x_4 = x_r[2];
+  x_5 = x_i[2];
+  x_6 = x_r[3];
+  x_7 = x_i[3];
 
   xh0_0 = ia_add_flt(x_0, x_4);
   xh1_0 = ia_add_flt(x_1, x_5);
-- 
2.43.0


From 3b6594c618798393f3113edb4bd2ebf6d98c2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 18/50] fix: correct the +j rotation in the 8-point inverse FFT

---
 decoder/impeghd_ifft.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index 1037dc6..0556699 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1182,16 +1182,16 @@ VOID impeghd_cplx_ifft_8(FLOAT32 *x_r, FLOAT32 *x_i)
   x_i[0] = ia_add_flt(n01, x_1);
   x_r[1] = ia_add_flt(n10, x_2);
   x_i[1] = ia_add_flt(n11, x_3);
-  x_r[2] = ia_sub_flt(n21, x_4);
-  x_i[2] = ia_add_flt(n20, x_5);
+  x_r[2] = ia_sub_flt(n20, x_5);
+  x_i[2] = ia_add_flt(n21, x_4);
   x_r[3] = ia_add_flt(n30, x_6);
   x_i[3] = ia_add_flt(n31, x_7);
   x_r[4] = ia_sub_flt(n00, x_0);
   x_i[4] = ia_sub_flt(n01, x_1);
   x_r[5] = ia_sub_flt(n10, x_2);
   x_i[5] = ia_sub_flt(n11, x_3);
-  x_r[6] = ia_add_flt(n21, x_4);
-  x_i[6] = ia_sub_flt(n20, x_5);
+  x_r[6] = ia_add_flt(n20, x_5);
+  x_i[6] = ia_sub_flt(n21, x_4);
   x_r[7] = ia_sub_flt(n30, x_6);
   x_i[7] = ia_sub_flt(n31, x_7);
 
-- 
2.43.0


From 83def9decdd9439715b47d7f3dd1591b7ad8be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 19/50] fix: fold with the sign of the previous symmetry in
 short-slope long windows

---
 decoder/ia_core_coder_basic_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_basic_ops.c b/decoder/ia_core_coder_basic_ops.c
index d9e3bd4..e50bca4 100644
--- a/decoder/ia_core_coder_basic_ops.c
+++ b/decoder/ia_core_coder_basic_ops.c
@@ -243,7 +243,7 @@ VOID ia_core_coder_windowing_long3(FLOAT32 *ptr_src1, const FLOAT32 *ptr_win_fwd
       ptr_win_fwd++;
       ptr_win_rev--;
     }
-    if (transform_kernel_type != 3)
+    if (transform_kernel_type != 2 && transform_kernel_type != 3)
     {
       for (i = pstr_drc_offset->n_long / 2;
            i < pstr_drc_offset->n_flat_ls + pstr_drc_offset->n_trans_ls; i++)
-- 
2.43.0


From 26bef6304cfe2dc2b4018f6fcb95fa1fa05cc0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 20/50] fix: keep the whole overlap in front of the aliasing
 cancellation area

---
 decoder/ia_core_coder_basic_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_basic_ops.c b/decoder/ia_core_coder_basic_ops.c
index e50bca4..ea817c3 100644
--- a/decoder/ia_core_coder_basic_ops.c
+++ b/decoder/ia_core_coder_basic_ops.c
@@ -178,7 +178,7 @@ VOID ia_core_coder_windowing_long2(FLOAT32 *ptr_src1, const FLOAT32 *ptr_win_fwd
 
   ptr_win_fwd += pstr_drc_offset->lfac;
   memcpy(ptr_dest, ptr_over_lap,
-         pstr_drc_offset->n_flat_ls + pstr_drc_offset->lfac * sizeof(FLOAT32));
+         (pstr_drc_offset->n_flat_ls + pstr_drc_offset->lfac) * sizeof(FLOAT32));
 
   for (i = pstr_drc_offset->n_flat_ls + (pstr_drc_offset->lfac * 3); i < pstr_drc_offset->n_long;
        i++)
-- 
2.43.0


From 898c711c061b371a46f08aba076cbb25bb63243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 21/50] fix: add the aliasing cancellation signal in time order

---
 decoder/ia_core_coder_basic_ops.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoder/ia_core_coder_basic_ops.c b/decoder/ia_core_coder_basic_ops.c
index ea817c3..f2c7e37 100644
--- a/decoder/ia_core_coder_basic_ops.c
+++ b/decoder/ia_core_coder_basic_ops.c
@@ -187,15 +187,6 @@ VOID ia_core_coder_windowing_long2(FLOAT32 *ptr_src1, const FLOAT32 *ptr_win_fwd
         ia_negate_flt(ptr_src1[pstr_drc_offset->n_long / 2 + pstr_drc_offset->n_flat_ls +
                                pstr_drc_offset->lfac - i - 1]);
   }
-  for (i = pstr_drc_offset->n_flat_ls + pstr_drc_offset->n_trans_ls;
-       i < pstr_drc_offset->n_flat_ls + (pstr_drc_offset->lfac * 3); i++)
-  {
-    ptr_dest[i] = ia_add_flt(
-        ia_negate_flt(ptr_src1[pstr_drc_offset->n_long / 2 + pstr_drc_offset->n_flat_ls +
-                               pstr_drc_offset->lfac - i - 1]),
-        (*fac_data_out));
-    fac_data_out++;
-  }
   for (i = pstr_drc_offset->n_flat_ls + pstr_drc_offset->lfac;
        i < pstr_drc_offset->n_flat_ls + pstr_drc_offset->n_trans_ls; i++)
   {
@@ -208,6 +199,15 @@ VOID ia_core_coder_windowing_long2(FLOAT32 *ptr_src1, const FLOAT32 *ptr_win_fwd
     ptr_win_fwd++;
     fac_data_out++;
   }
+  for (i = pstr_drc_offset->n_flat_ls + pstr_drc_offset->n_trans_ls;
+       i < pstr_drc_offset->n_flat_ls + (pstr_drc_offset->lfac * 3); i++)
+  {
+    ptr_dest[i] = ia_add_flt(
+        ia_negate_flt(ptr_src1[pstr_drc_offset->n_long / 2 + pstr_drc_offset->n_flat_ls +
+                               pstr_drc_offset->lfac - i - 1]),
+        (*fac_data_out));
+    fac_data_out++;
+  }
 }
 
 /**
-- 
2.43.0


From c60248185fb5d3ede2aace07cdc56d94e8c9e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 22/50] fix: TNS filters may reach down to band 0

---
 decoder/ia_core_coder_spectrum_dec.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/decoder/ia_core_coder_spectrum_dec.c b/decoder/ia_core_coder_spectrum_dec.c
index 327048a..3f83d78 100644
--- a/decoder/ia_core_coder_spectrum_dec.c
+++ b/decoder/ia_core_coder_spectrum_dec.c
@@ -195,12 +195,8 @@ IA_ERRORCODE ia_core_coder_read_tns_tcx(WORD32 sfb_per_sbk,
     for (j = pstr_tns_info->n_filt; j > 0; j--)
     {
       pstr_tns_filt->stop_band = top;
-      top = pstr_tns_filt->start_band =
-          top - ia_core_coder_read_bits_buf(it_bit_buff, TNS_SHORT_START_BAND_BITS);
-      if (top <= 0)
-      {
-        return IA_MPEGH_DEC_EXE_FATAL_INVALID_START_BAND;
-      }
+      top -= ia_core_coder_read_bits_buf(it_bit_buff, TNS_SHORT_START_BAND_BITS);
+      top = pstr_tns_filt->start_band = ia_max_int(top, 0);
       pstr_tns_filt->order = ia_core_coder_read_bits_buf(it_bit_buff, TNS_SHORT_ORDER_BITS);
 
       if (pstr_tns_filt->order)
@@ -288,12 +284,8 @@ IA_ERRORCODE ia_core_coder_read_tns_u(ia_sfb_info_struct *ptr_sfb_info,
     for (j = pstr_tns_info->n_filt; j > 0; j--)
     {
       pstr_tns_filt->stop_band = top;
-      top = pstr_tns_filt->start_band =
-          top - ia_core_coder_read_bits_buf(it_bit_buff, start_band_bits);
-      if (top <= 0)
-      {
-        return IA_MPEGH_DEC_EXE_FATAL_INVALID_START_BAND;
-      }
+      top -= ia_core_coder_read_bits_buf(it_bit_buff, start_band_bits);
+      top = pstr_tns_filt->start_band = ia_max_int(top, 0);
       pstr_tns_filt->order = ia_core_coder_read_bits_buf(it_bit_buff, order_bits);
 
       if (pstr_tns_filt->order)
-- 
2.43.0


From 91695d45058b62bec5ded53ca5768b447a71fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 23/50] fix: the synthesis filter copied its memory four times
 too long

---
 decoder/ia_core_coder_acelp_tools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_acelp_tools.c b/decoder/ia_core_coder_acelp_tools.c
index 12f8502..55ba60b 100644
--- a/decoder/ia_core_coder_acelp_tools.c
+++ b/decoder/ia_core_coder_acelp_tools.c
@@ -167,7 +167,7 @@ VOID ia_core_coder_synthesis_tool(FLOAT32 *ptr_a, FLOAT32 *ptr_x, FLOAT32 *ptr_y
   FLOAT32 *ptr_yy;
   FLOAT32 *ptr_buf;
   ptr_buf = (FLOAT32 *)&scratch[0];
-  ia_core_coder_mem_cpy(mem, ptr_buf, ORDER * sizeof(FLOAT32));
+  ia_core_coder_mem_cpy(mem, ptr_buf, ORDER);
   ptr_yy = &ptr_buf[ORDER];
   for (idx = 0; idx < l; idx++)
   {
-- 
2.43.0


From 8cb032c17bd945a00e9545ccee17efb26d3364bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 24/50] fix: twiddle factors for 64 and 32 point aliasing
 cancellation transforms

---
 decoder/ia_core_coder_acelp_mdct.c |  6 ++++
 decoder/ia_core_coder_rom.c        | 56 ++++++++++++++++++++++++++++++
 decoder/ia_core_coder_rom.h        |  2 ++
 3 files changed, 64 insertions(+)

diff --git a/decoder/ia_core_coder_acelp_mdct.c b/decoder/ia_core_coder_acelp_mdct.c
index 2bcf176..38bb06c 100644
--- a/decoder/ia_core_coder_acelp_mdct.c
+++ b/decoder/ia_core_coder_acelp_mdct.c
@@ -184,6 +184,12 @@ IA_ERRORCODE ia_core_coder_acelp_mdct(FLOAT32 *ptr_in, FLOAT32 *ptr_out, WORD32
 
   switch (length)
   {
+  case 32:
+    ptr_pre_post_twid = &ia_core_coder_pre_post_twid_cos_sin_16[0][0];
+    break;
+  case 64:
+    ptr_pre_post_twid = &ia_core_coder_pre_post_twid_cos_sin_32[0][0];
+    break;
   case 128:
     ptr_pre_post_twid = &ia_core_coder_pre_post_twid_cos_sin_64[0][0];
     break;
diff --git a/decoder/ia_core_coder_rom.c b/decoder/ia_core_coder_rom.c
index 53fae36..711c5a6 100644
--- a/decoder/ia_core_coder_rom.c
+++ b/decoder/ia_core_coder_rom.c
@@ -2231,6 +2231,62 @@ const FLOAT32 ia_core_coder_kbd_win1024[1024] = {
     0.999999f, 1.000000f, 1.000000f, 1.000000f, 1.000000f, 1.000000f, 1.000000f, 1.000000f,
 };
 
+const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_16[4][16] = {
+    {
+        0.999699f, 0.992480f, 0.975702f, 0.949528f, 0.914210f, 0.870087f,
+        0.817585f, 0.757209f, 0.689541f, 0.615232f, 0.534998f, 0.449611f,
+        0.359895f, 0.266713f, 0.170962f, 0.073565f,
+    },
+    {
+        -0.024541f, -0.122411f, -0.219101f, -0.313682f, -0.405241f, -0.492898f,
+        -0.575808f, -0.653173f, -0.724247f, -0.788346f, -0.844854f, -0.893224f,
+        -0.932993f, -0.963776f, -0.985278f, -0.997290f,
+    },
+    {
+        1.000000f, 0.995185f, 0.980785f, 0.956940f, 0.923880f, 0.881921f,
+        0.831470f, 0.773010f, 0.707107f, 0.634393f, 0.555570f, 0.471397f,
+        0.382683f, 0.290285f, 0.195090f, 0.098017f,
+    },
+    {
+        0.000000f, -0.098017f, -0.195090f, -0.290285f, -0.382683f, -0.471397f,
+        -0.555570f, -0.634393f, -0.707107f, -0.773010f, -0.831470f, -0.881921f,
+        -0.923880f, -0.956940f, -0.980785f, -0.995185f,
+    },
+};
+const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_32[4][32] = {
+    {
+        0.999925f, 0.998118f, 0.993907f, 0.987301f, 0.978317f, 0.966976f,
+        0.953306f, 0.937339f, 0.919114f, 0.898674f, 0.876070f, 0.851355f,
+        0.824589f, 0.795837f, 0.765167f, 0.732654f, 0.698376f, 0.662416f,
+        0.624859f, 0.585798f, 0.545325f, 0.503538f, 0.460539f, 0.416430f,
+        0.371317f, 0.325310f, 0.278520f, 0.231058f, 0.183040f, 0.134581f,
+        0.085797f, 0.036807f,
+    },
+    {
+        -0.012272f, -0.061321f, -0.110222f, -0.158858f, -0.207111f, -0.254866f,
+        -0.302006f, -0.348419f, -0.393992f, -0.438616f, -0.482184f, -0.524590f,
+        -0.565732f, -0.605511f, -0.643832f, -0.680601f, -0.715731f, -0.749136f,
+        -0.780737f, -0.810457f, -0.838225f, -0.863973f, -0.887640f, -0.909168f,
+        -0.928506f, -0.945607f, -0.960431f, -0.972940f, -0.983105f, -0.990903f,
+        -0.996313f, -0.999322f,
+    },
+    {
+        1.000000f, 0.998795f, 0.995185f, 0.989177f, 0.980785f, 0.970031f,
+        0.956940f, 0.941544f, 0.923880f, 0.903989f, 0.881921f, 0.857729f,
+        0.831470f, 0.803208f, 0.773010f, 0.740951f, 0.707107f, 0.671559f,
+        0.634393f, 0.595699f, 0.555570f, 0.514103f, 0.471397f, 0.427555f,
+        0.382683f, 0.336890f, 0.290285f, 0.242980f, 0.195090f, 0.146730f,
+        0.098017f, 0.049068f,
+    },
+    {
+        0.000000f, -0.049068f, -0.098017f, -0.146730f, -0.195090f, -0.242980f,
+        -0.290285f, -0.336890f, -0.382683f, -0.427555f, -0.471397f, -0.514103f,
+        -0.555570f, -0.595699f, -0.634393f, -0.671559f, -0.707107f, -0.740951f,
+        -0.773010f, -0.803208f, -0.831470f, -0.857729f, -0.881921f, -0.903989f,
+        -0.923880f, -0.941544f, -0.956940f, -0.970031f, -0.980785f, -0.989177f,
+        -0.995185f, -0.998795f,
+    },
+};
 const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_64[4][64] = {
     {0.999981f, 0.999529f, 0.998476f, 0.996820f, 0.994565f, 0.991710f, 0.988258f, 0.984210f,
      0.979570f, 0.974339f, 0.968522f, 0.962121f, 0.955141f, 0.947586f, 0.939459f, 0.930767f,
diff --git a/decoder/ia_core_coder_rom.h b/decoder/ia_core_coder_rom.h
index bae2618..02b8139 100644
--- a/decoder/ia_core_coder_rom.h
+++ b/decoder/ia_core_coder_rom.h
@@ -180,6 +180,8 @@ extern const FLOAT32 ia_core_coder_kbd_win48[48];
 extern const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_24[4][24];
 extern const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_32[4][32];
 extern const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_48[4][48];
+extern const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_16[4][16];
+extern const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_32[4][32];
 extern const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_64[4][64];
 extern const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_96[4][96];
 extern const FLOAT32 ia_core_coder_pre_post_twid_cos_sin_128[4][128];
-- 
2.43.0


From 07801364e23ef9dcd9f650a138f978981b9b4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 25/50] fix: large HOA gain corrections were inverted

---
 decoder/impeghd_hoa_inverse_dyn_correction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_inverse_dyn_correction.c b/decoder/impeghd_hoa_inverse_dyn_correction.c
index 2b03691..aa87019 100644
--- a/decoder/impeghd_hoa_inverse_dyn_correction.c
+++ b/decoder/impeghd_hoa_inverse_dyn_correction.c
@@ -117,7 +117,7 @@ IA_ERRORCODE impeghd_hoa_inv_dyn_correction_process(FLOAT32 *ptr_inp,
           for (i = 0; i < frame_sz; i++)
           {
             tmp = ia_mul_flt(reci_last_gain, ptr_inp[i]);
-            ptr_out[i] = ia_mul_flt((FLOAT32)(pow(d_win_func[i], exp)), tmp);
+            ptr_out[i] = ia_mul_flt((FLOAT32)(pow(d_win_func[i], -exp)), tmp);
           }
           last_gain = ia_mul_flt(last_gain, (FLOAT32)(pow(d_win_func[frame_sz - 1], exp)));
         }
-- 
2.43.0


From 6569bb862a369cd7fc8590b23fd06e11745f1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 26/50] fix: check the gain exponent of ambient HOA channels
 too

---
 decoder/impeghd_hoa_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 96b117d..caa36c9 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -344,6 +344,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
     {
       coded_gain++;
     } while (!(ia_core_coder_read_bits_buf(ptr_bit_buf, 1)));
+    if (coded_gain > HOA_MAX_CODED_GAIN)
+    {
+      return IA_MPEGH_HOA_EXE_FATAL_INVALID_HOA_CODED_GAIN;
+    }
     ptr_frame_data->coded_gain_correction_exp[i] = coded_gain;
     ptr_frame_data->gain_correction_exception[i] = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   }
-- 
2.43.0


From 1555cf50429dc1b3e1635ca444989856db02422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 27/50] fix: directional and vector based HOA signals share one
 index set

---
 decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c | 5 +++--
 decoder/impeghd_hoa_pre_dom_sound_syn.c           | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
index a1f0a68..d1624e1 100644
--- a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
+++ b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
@@ -278,9 +278,10 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
     }
   }
 
-  syn_handle->num_prev_ps_indices = frame_param->num_vec_predom_sounds;
+  syn_handle->num_prev_ps_indices =
+      frame_param->num_dir_predom_sounds + frame_param->num_vec_predom_sounds;
   memcpy(&syn_handle->set_of_old_ps_sig_indices[0], ptr_set_of_sig_indices,
-         sizeof(*ptr_set_of_sig_indices) * frame_param->num_vec_predom_sounds);
+         sizeof(*ptr_set_of_sig_indices) * syn_handle->num_prev_ps_indices);
 
   syn_handle->num_prev_dir_predom_sounds = frame_param->num_dir_predom_sounds;
   memcpy(&syn_handle->last_active_dir_and_grid_dir_indices[0], ptr_active_dir_and_grid_indices,
diff --git a/decoder/impeghd_hoa_pre_dom_sound_syn.c b/decoder/impeghd_hoa_pre_dom_sound_syn.c
index 6bdcc03..737be8c 100644
--- a/decoder/impeghd_hoa_pre_dom_sound_syn.c
+++ b/decoder/impeghd_hoa_pre_dom_sound_syn.c
@@ -88,7 +88,7 @@ IA_ERRORCODE impeghd_hoa_pre_dom_sound_syn_process(ia_spatial_dec_str *dec_handl
 
   for (num_sounds = 0; num_sounds < frame_param->num_vec_predom_sounds; num_sounds++)
   {
-    sig_indices_set[num_sounds] = vectors[num_sounds].index;
+    sig_indices_set[frame_param->num_dir_predom_sounds + num_sounds] = vectors[num_sounds].index;
   }
 
   err_code = impeghd_hoa_vector_based_predom_sound_syn_process(dec_handle, sig_indices_set,
-- 
2.43.0


From 615e1758a3ce188bfe44f47c4d98044bb5747600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 28/50] fix: find out which HOA directions and vectors continue

---
 decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c   | 6 +++---
 decoder/impeghd_hoa_vector_based_predom_sound_syn.c | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
index d1624e1..82623ec 100644
--- a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
+++ b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
@@ -182,7 +182,7 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
       }
       ptr_curr_fade_out_win = &(dec_handle->ones_long_vec[0]);
 
-      if (HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED == dir_idx)
+      if (frame_param->num_dir_predom_sounds == dir_idx)
       {
         for (dir_idx = 0; dir_idx < HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED; dir_idx++)
         {
@@ -241,14 +241,14 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
           break;
       }
 
-      if (HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED == dir_idx)
+      if (syn_handle->num_prev_dir_predom_sounds == dir_idx)
       {
         for (dir_idx = 0; dir_idx < syn_handle->num_prev_ps_indices; dir_idx++)
         {
           if (curr_dir_idx == syn_handle->set_of_old_ps_sig_indices[dir_idx])
             break;
         }
-        if (dir_idx != HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED)
+        if (dir_idx != syn_handle->num_prev_ps_indices)
         {
           curr_fade_in_win = &(fade_in_win_for_dir_sigs[0]);
         }
diff --git a/decoder/impeghd_hoa_vector_based_predom_sound_syn.c b/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
index 020d24c..b8a204f 100644
--- a/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
+++ b/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
@@ -111,12 +111,12 @@ impeghd_hoa_vector_based_predom_sound_syn_process(ia_spatial_dec_str *dec_handle
     {
       intrpl_samples = pstr_hoa_config->frame_length;
       curr_interp_win = &(sound_syn_handle->fade_out_win_for_dir_sigs[0]);
-      for (map_it = 0; map_it < HOA_MAXIMUM_VECTOR_SIG_INDICES; map_it++)
+      for (map_it = 0; map_it < frame_param->num_vec_predom_sounds; map_it++)
       {
         if (vectors[map_it].index == vec_sig_idx)
           break;
       }
-      if (map_it != HOA_MAXIMUM_VECTOR_SIG_INDICES)
+      if (map_it != frame_param->num_vec_predom_sounds)
       {
         intrpl_samples = pstr_hoa_config->spat_interpolation_time;
         curr_interp_win = &(sound_syn_handle->fade_out_win_for_vec_sigs[0]);
-- 
2.43.0


From 153215c7009b0763992edd24bd05226c3fa5141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 29/50] fix: search only the 16 HOA signal indices there are

---
 decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
index 82623ec..904912d 100644
--- a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
+++ b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
@@ -184,13 +184,13 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
 
       if (frame_param->num_dir_predom_sounds == dir_idx)
       {
-        for (dir_idx = 0; dir_idx < HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED; dir_idx++)
+        for (dir_idx = 0; dir_idx < HOA_MAXIMUM_SIG_INDICES; dir_idx++)
         {
           if (ptr_set_of_sig_indices[dir_idx] == curr_dir_idx)
             break;
         }
 
-        if (dir_idx != HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED)
+        if (dir_idx != HOA_MAXIMUM_SIG_INDICES)
         {
           ptr_curr_fade_out_win = &(fade_out_win_for_vec_sigs[0]);
         }
-- 
2.43.0


From 3b5482f3d78a2a658159d85e17e3917a6ecc8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 30/50] fix: resampler adds the polyphase branch outputs in the
 order of their taps

---
 decoder/impeghd_resampler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_resampler.c b/decoder/impeghd_resampler.c
index a024d67..f14f859 100644
--- a/decoder/impeghd_resampler.c
+++ b/decoder/impeghd_resampler.c
@@ -123,7 +123,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[idx3] += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
         ptr_filt_coef++;
       }
       ptr_delay++;
@@ -134,7 +134,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[idx3] += ia_mul_flt(*ptr_temp, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] += ia_mul_flt(*ptr_temp, *ptr_filt_coef);
         ptr_filt_coef++;
       }
       ptr_temp++;
-- 
2.43.0


From bd793a47b7456b94c02b3225dafd55b3e90e10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 31/50] fix: apply the loudness gain before the output sample
 rate conversion

---
 decoder/ia_core_coder_decode_main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 1389784..32b62f7 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1528,6 +1528,18 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
   {
     ptr_audio_buff[i] = &pstr_dec_data->str_usac_data.time_sample_vector[i][0];
   }
+  if (gain_db_loudness_normalization != 0.0f)
+  {
+
+    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
+    for (i = 0; i < *ptr_num_out_chnl; i++)
+    {
+      for (j = 0; j < frame_length; j++)
+      {
+        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
+      }
+    }
+  }
   if (ptr_config->resample_output)
   {
     FLOAT32 *ptr_resamp_scratch =
@@ -1545,18 +1557,6 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
     pstr_mpegh_dec->ui_out_bytes =
         frame_length * (*ptr_num_out_chnl) * (ptr_config->ui_pcm_wdsz >> 3);
   }
-  if (gain_db_loudness_normalization != 0.0f)
-  {
-
-    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
-    for (i = 0; i < *ptr_num_out_chnl; i++)
-    {
-      for (j = 0; j < frame_length; j++)
-      {
-        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
-      }
-    }
-  }
   if (peak_lim_flag)
   {
     impegh_dec_peak_limiter(ptr_config, pstr_dec_data, ptr_num_out_chnl, ptr_out_buf,
-- 
2.43.0


From a51d6f08c0b4841c03d95879ccd44c809d29a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 32/50] fix: near-field compensation filter of each HOA
 coefficient has the order of that coefficient

---
 decoder/impeghd_hoa_renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_renderer.c b/decoder/impeghd_hoa_renderer.c
index e3c4e47..81ab809 100644
--- a/decoder/impeghd_hoa_renderer.c
+++ b/decoder/impeghd_hoa_renderer.c
@@ -109,7 +109,7 @@ IA_ERRORCODE impeghd_hoa_ren_nfc_init(pVOID handle, UWORD32 order, FLOAT32 nfc_r
     for (j = 0; j < max_comp; j++)
     {
       nfc_handle = &(rh_handle->nfc_filter[curr_comp]);
-      nfc_handle->order = order;
+      nfc_handle->order = order_idx;
       nfc_handle->num_iir_1_filts = nfc_handle->order % 2;
       nfc_handle->num_iir_2_filts = (nfc_handle->order - nfc_handle->num_iir_1_filts) / 2;
       impeghd_hoa_ren_nfc_set_filter_params(nfc_handle, tnfc, tnfs);
-- 
2.43.0


From e5475fc24157551f0c0d883772769b4a727f690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 33/50] fix: multichannel coding angle stays in its table and
 stereo filling accepts an even number of bands

---
 decoder/impeghd_multichannel.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index 0735761..45231ca 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -555,6 +555,10 @@ IA_ERRORCODE impeghd_mc_parse(ia_multichannel_data *ptr_mc_data, UWORD8 *ptr_bit
           {
             new_coeff -= CODE_BOOK_BETA_LAV;
           }
+          if (new_coeff < 0)
+          {
+            new_coeff = 0;
+          }
         }
         for (band = 0; band < ptr_mc_data->num_mask_band[box]; band++)
         {
@@ -756,7 +760,7 @@ IA_ERRORCODE impeghd_mc_get_prev_dmx(ia_multichannel_data *ptr_mc_data, FLOAT32
                                         &ptr_prev_dmx[start_line], rot_angle,
                                         stop_line - start_line);
       sfb += 2;
-      if (sfb >= total_sfb)
+      if (sfb >= total_sfb - 1)
       {
         break;
       }
-- 
2.43.0


From 43599ed17749c91e3893f740e4dfbae9aac44e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 34/50] fix: insert DRC gain nodes for rising slopes only in
 spline interpolation

---
 decoder/impd_drc_gain_dec.c | 65 +++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/decoder/impd_drc_gain_dec.c b/decoder/impd_drc_gain_dec.c
index 176ae9b..455ad71 100644
--- a/decoder/impd_drc_gain_dec.c
+++ b/decoder/impd_drc_gain_dec.c
@@ -220,6 +220,39 @@ static IA_ERRORCODE impd_drc_interpolate_drc_gain(FLOAT32 *interp_out,
         }
       }
     }
+    else if (fabs((FLOAT64)slope_prev_lin) < fabs((FLOAT64)slope_cur_lin))
+    {
+      node_insert_float = ia_mul_flt(
+          2.0f,
+          (ia_add_flt(ia_sub_flt(gain_prev_lin, gain_cur_lin), (slope_prev_lin * gain_step_td))) /
+              ia_sub_flt(slope_prev_lin, slope_cur_lin));
+      node_insert_float = gain_step_td - node_insert_float;
+      node_insert = (WORD32)(0.5f + node_insert_float);
+
+      if ((node_insert >= 0) && (node_insert < gain_step_td))
+      {
+        cubic_interpoln = 0;
+
+        interp_out[0] = gain_prev_lin;
+        interp_out[gain_step_td] = gain_cur_lin;
+
+        for (node = 1; node < node_insert; node++)
+        {
+          interp_out[node] = ia_add_flt(ia_mul_flt(slope_prev_lin, (FLOAT32)node), gain_prev_lin);
+        }
+        a = ia_sub_flt(slope_cur_lin, slope_prev_lin) / (2.0f * (gain_step_td - node_insert_float));
+
+        for (; node < gain_step_td; node++)
+        {
+          interp_out[node] =
+              ia_add_flt(ia_mul_flt((ia_add_flt(ia_mul_flt(a, (FLOAT32)(gain_step_td - node)),
+                                                (-slope_cur_lin))),
+                                    (FLOAT32)(gain_step_td - node)),
+                         gain_cur_lin);
+          interp_out[node] = ia_max_flt(0.0f, interp_out[node]);
+        }
+      }
+    }
 
     if (cubic_interpoln == 1)
     {
@@ -250,38 +283,6 @@ static IA_ERRORCODE impd_drc_interpolate_drc_gain(FLOAT32 *interp_out,
       }
     }
   }
-  else if (fabs((FLOAT64)slope_prev_lin) < fabs((FLOAT64)slope_cur_lin))
-  {
-    node_insert_float = ia_mul_flt(
-        2.0f,
-        (ia_add_flt(ia_sub_flt(gain_prev_lin, gain_cur_lin), (slope_prev_lin * gain_step_td))) /
-            ia_sub_flt(slope_prev_lin, slope_cur_lin));
-    node_insert_float = gain_step_td - node_insert_float;
-    node_insert = (WORD32)(0.5f + node_insert_float);
-
-    if ((node_insert >= 0) && (node_insert < gain_step_td))
-    {
-
-      interp_out[0] = gain_prev_lin;
-      interp_out[gain_step_td] = gain_cur_lin;
-
-      for (node = 1; node < node_insert; node++)
-      {
-        interp_out[node] = ia_add_flt(ia_mul_flt(slope_prev_lin, (FLOAT32)node), gain_prev_lin);
-      }
-      a = ia_sub_flt(slope_cur_lin, slope_prev_lin) / (2.0f * (gain_step_td - node_insert_float));
-
-      for (; node < gain_step_td; node++)
-      {
-        interp_out[node] =
-            ia_add_flt(ia_mul_flt((ia_add_flt(ia_mul_flt(a, (FLOAT32)(gain_step_td - node)),
-                                              (-slope_cur_lin))),
-                                  (FLOAT32)(gain_step_td - node)),
-                       gain_cur_lin);
-        interp_out[node] = ia_max_flt(0.0f, interp_out[node]);
-      }
-    }
-  }
   else
   {
 
-- 
2.43.0


From 15f69fb966a659dc3fc811002b150bb0d5724748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 35/50] fix: run the DRC all-pass filters forwards in time

---
 decoder/impd_drc_filter_bank.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_filter_bank.c b/decoder/impd_drc_filter_bank.c
index ffc9db2..e9d614a 100644
--- a/decoder/impd_drc_filter_bank.c
+++ b/decoder/impd_drc_filter_bank.c
@@ -379,7 +379,7 @@ static VOID impd_drc_iir_second_order_all_pass_filter(FLOAT32 *output,
   FLOAT32 st1 = pstr_filter->x_p[ch_idx * 2];
   FLOAT32 st2 = pstr_filter->y_p[ch_idx * 2];
 
-  for (WORD32 idx = frame_len - 1; idx >= 0; idx--)
+  for (WORD32 idx = 0; idx < frame_len; idx++)
   {
     temp = input[idx];
     output[idx] = ia_add_flt(ia_mul_flt(b0, temp), st1);
-- 
2.43.0


From 74fb9238179c15cba357f3550485817bbdc824e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 36/50] fix: do not run a DRC all-pass filter that was never
 set up

---
 decoder/impd_drc_filter_bank.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_filter_bank.c b/decoder/impd_drc_filter_bank.c
index e9d614a..b7dd0c8 100644
--- a/decoder/impd_drc_filter_bank.c
+++ b/decoder/impd_drc_filter_bank.c
@@ -601,7 +601,7 @@ VOID impd_drc_four_band_filter_process(FLOAT32 *output[],
 VOID impd_drc_all_pass_cascade_process(ia_all_pass_cascade_struct *str_all_pass_cascade,
                                        WORD32 ch_idx, WORD32 win_size, FLOAT32 *input)
 {
-  for (WORD32 idx = str_all_pass_cascade->num_filter; idx >= 0; idx--)
+  for (WORD32 idx = str_all_pass_cascade->num_filter - 1; idx >= 0; idx--)
   {
     impd_drc_iir_second_order_all_pass_filter(
         input, &(str_all_pass_cascade->str_ap_cascade_filt[idx].str_ap_stage), ch_idx, win_size,
-- 
2.43.0


From a914f14482136a76fbfd94cff4321b16b2a26161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 37/50] fix: refuse more DRC filter banks or cascaded all-pass
 filters than there is room for

---
 decoder/impd_drc_filter_bank.c | 9 +++++++++
 decoder/impd_drc_filter_bank.h | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/decoder/impd_drc_filter_bank.c b/decoder/impd_drc_filter_bank.c
index b7dd0c8..7734f95 100644
--- a/decoder/impd_drc_filter_bank.c
+++ b/decoder/impd_drc_filter_bank.c
@@ -215,6 +215,11 @@ IA_ERRORCODE impd_drc_init_all_filter_banks(ia_filter_banks_struct *pstr_ia_filt
     num_ph_align_ch_grps++;
   }
 
+  if (num_ph_align_ch_grps > FILTER_BANK_COUNT_MAX)
+  {
+    return IA_MPEGD_DRC_INIT_FATAL_CH_GROUP_COUNT_EXCEEDED;
+  }
+
   pstr_ia_filter_bank->num_filt_banks = pstr_drc_instructions->num_drc_ch_groups;
   pstr_ia_filter_bank->num_ph_align_ch_grps = num_ph_align_ch_grps;
 
@@ -325,6 +330,10 @@ IA_ERRORCODE impd_drc_init_all_filter_banks(ia_filter_banks_struct *pstr_ia_filt
   for (ch_grp = 0; ch_grp < (UWORD32)num_ph_align_ch_grps; ch_grp++)
   {
     num_filter = grp_cnt[ch_grp];
+    if (num_filter > CASCADE_ALLPASS_COUNT_MAX)
+    {
+      return IA_MPEGD_DRC_INIT_FATAL_CH_GROUP_COUNT_EXCEEDED;
+    }
     if (num_filter > 0)
     {
       for (idx = 0; idx < num_filter; idx++)
diff --git a/decoder/impd_drc_filter_bank.h b/decoder/impd_drc_filter_bank.h
index 935e431..63210bb 100644
--- a/decoder/impd_drc_filter_bank.h
+++ b/decoder/impd_drc_filter_bank.h
@@ -37,6 +37,7 @@
 
 #define FILTER_BANK_PARAMETER_COUNT 16
 #define CASCADE_ALLPASS_COUNT_MAX 9
+#define FILTER_BANK_COUNT_MAX 8
 
 typedef struct
 {
@@ -107,7 +108,7 @@ typedef struct
 
 typedef struct
 {
-  ia_drc_filter_bank_struct str_drc_filter_bank[8];
+  ia_drc_filter_bank_struct str_drc_filter_bank[FILTER_BANK_COUNT_MAX];
   WORD32 complexity;
   WORD32 num_filt_banks;
   WORD32 num_ph_align_ch_grps;
-- 
2.43.0


From 7eb0be47ecbbc473feb1887a4ba7901479ae693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 38/50] fix: keep DRC sub-band start indices above 127

---
 decoder/impd_drc_static_payload.c | 2 +-
 decoder/impd_drc_struct.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index c5cbce5..9a2cff4 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -652,7 +652,7 @@ impd_drc_parse_gain_set_params(ia_drc_gain_set_params_struct *pstr_gain_set_para
       for (cnt = 1; cnt < pstr_gain_set_params->band_count; cnt++)
       {
         pstr_gain_set_params->gain_params[cnt].start_subband_index =
-            (WORD8)ia_core_coder_read_bits_buf(pstr_it_bit_buff, 10);
+            (WORD16)ia_core_coder_read_bits_buf(pstr_it_bit_buff, 10);
       }
     }
     else
diff --git a/decoder/impd_drc_struct.h b/decoder/impd_drc_struct.h
index 3ac68dd..4675dc5 100644
--- a/decoder/impd_drc_struct.h
+++ b/decoder/impd_drc_struct.h
@@ -145,7 +145,7 @@ typedef struct
   WORD8 gain_seq_idx;
   WORD8 drc_characteristic;
   WORD8 crossover_freq_idx;
-  WORD8 start_subband_index;
+  WORD16 start_subband_index;
 } ia_drc_gain_params_struct;
 
 typedef struct
-- 
2.43.0


From b64085f6befe360a942f8452cdf94fd4647e1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 39/50] fix: size the binaural renderer's input history for all
 diffuse blocks

---
 decoder/impeghd_binaural_renderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index affddd1..39b5aba 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -71,7 +71,7 @@ typedef struct
   FLOAT32 input_mem_buf[MAX_NUM_BRIR_CHANNELS][BINAURAL_FFT_MAXLEN];
   FLOAT32 output_mem_buf[BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
   FLOAT32 taps_diffuse[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
-  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_FFT_MAXLEN];
+  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS + 1][BINAURAL_FFT_MAXLEN];
   FLOAT32 diffuse_weight[MAX_NUM_BRIR_CHANNELS];
 } ia_binaural_ren_pers_mem_str;
 
-- 
2.43.0


From 03c511c06707c780536dd92eef02b95d2713b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 40/50] fix: bound the lengths of binaural time domain filters

---
 decoder/impeghd_binaural.c | 7 +++++++
 decoder/impeghd_binaural.h | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 17b4d5a..4b89ec8 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -175,6 +175,13 @@ impeghd_binaural_read_td_data(ia_bit_buf_struct *ptr_bit_buf,
   pstr_binaural_td_data->num_diffuse_block = ia_core_coder_read_bits_buf(ptr_bit_buf, 8);
   pstr_binaural_td_data->num_channel = pstr_binaural_rep->brir_pairs;
 
+  if ((pstr_binaural_td_data->len_direct < 1) ||
+      (pstr_binaural_td_data->len_direct > MAX_LENGTH_DIRECT_FILTER) ||
+      (pstr_binaural_td_data->num_diffuse_block > MAX_NUM_DIFFUSE_BLOCKS))
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_FILTER_LENGTH;
+  }
+
   if (pstr_binaural_rep->brir_pairs > MAX_NUM_BRIR_PAIRS)
   {
     return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_CHANNELS;
diff --git a/decoder/impeghd_binaural.h b/decoder/impeghd_binaural.h
index 96d42e8..1110870 100644
--- a/decoder/impeghd_binaural.h
+++ b/decoder/impeghd_binaural.h
@@ -126,8 +126,8 @@ typedef struct
   FLOAT32 diffusion_filter_1[MAX_NUM_BRIR_PAIRS];
   FLOAT32 diffuse_weigh_0[MAX_NUM_BRIR_PAIRS];
   FLOAT32 diffuse_weigh_1[MAX_NUM_BRIR_PAIRS];
-  FLOAT32 diffusion_filter_wmc[MAX_NUM_DIFFUSE_BLOCKS][MAX_LENGTH_DIRECT_FILTER];
-  FLOAT32 diffuse_filter[MAX_LENGTH_DIRECT_FILTER];
+  FLOAT32 diffusion_filter_wmc[2][MAX_NUM_DIFFUSE_BLOCKS * MAX_LENGTH_DIRECT_FILTER];
+  FLOAT32 diffuse_filter[MAX_NUM_DIFFUSE_BLOCKS * MAX_LENGTH_DIRECT_FILTER];
   FLOAT32 fft_ifft_scratch[FFT_IFFT_SCRATCH];
   FLOAT32 xi[BINAURAL_FFT_MAXLEN];
   FLOAT32 complex_scratch[BINAURAL_FFT_MAXLEN];
-- 
2.43.0


From 8ac15131631f1203d7bd8decde65f97bd811b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 41/50] fix: read BRIR file name lengths above 127

---
 decoder/impeghd_binaural.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 4b89ec8..bec8367 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -259,13 +259,13 @@ static IA_ERRORCODE impeghd_parse_brir_info(VOID *buf_handle,
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
   WORD32 hoa_order_binaural = 0, brir_pairs = 0;
   UWORD32 fill_bits, rem;
-  WORD8 filename_length = 0, i = 0, brir_sampling_freq_index = 0;
+  WORD32 filename_length = 0, i = 0, brir_sampling_freq_index = 0;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   ia_binaural_representation_str *ptr_binaural_rep = &binaural_ren_info->binaural_rep;
 
   ia_core_coder_read_bits_buf_32(ia_bit_buf);
   ia_core_coder_read_bits_buf(ia_bit_buf, 8);
-  filename_length = (WORD8)ia_core_coder_read_bits_buf(ia_bit_buf, 8);
+  filename_length = ia_core_coder_read_bits_buf(ia_bit_buf, 8);
 
   for (i = 0; i < filename_length; i++)
   {
@@ -284,7 +284,7 @@ static IA_ERRORCODE impeghd_parse_brir_info(VOID *buf_handle,
 
   for (i = 0; i < binaural_ren_info->num_binaural_representation; i++)
   {
-    brir_sampling_freq_index = (WORD8)ia_core_coder_read_bits_buf(ia_bit_buf, 5);
+    brir_sampling_freq_index = ia_core_coder_read_bits_buf(ia_bit_buf, 5);
     if (brir_sampling_freq_index != 0x1F)
     {
       ptr_binaural_rep->brir_sampling_frequency =
-- 
2.43.0


From be750a9807baaebbab59b9a0590235bf4e315338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 42/50] fix: do not read past the binaural impulse response
 when designing the direct filter

---
 decoder/impeghd_binaural_filter_design.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/decoder/impeghd_binaural_filter_design.c b/decoder/impeghd_binaural_filter_design.c
index f7a23dd..d9c72aa 100644
--- a/decoder/impeghd_binaural_filter_design.c
+++ b/decoder/impeghd_binaural_filter_design.c
@@ -544,9 +544,7 @@ IA_ERRORCODE impeghd_compute_filter_params(ia_td_binaural_ren_param_str *ptr_par
   ptr_param->len_direct = len_direct;
   ptr_param->num_channel = n_brir_pairs;
   ptr_param->num_diffuse_block = num_diffuse_block;
-  cpy_len = ptr_fir_data->n_taps < ptr_param->len_direct
-                ? ptr_fir_data->n_taps
-                : ptr_param->len_direct; /* take min of the 2 len */
+  cpy_len = ia_min_int(ptr_fir_data->n_taps - ptr_param->begin_delay, ptr_param->len_direct);
   for (i_ear = 0; i_ear < 2; ++i_ear)
   {
     for (ch = 0; ch < ptr_param->num_channel; ++ch)
-- 
2.43.0


From d8a785a043c7ac1617e823d68aae370797bb2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 43/50] fix: do not advance past the binaural output scratch
 buffer

---
 decoder/impeghd_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6414ca8..37619e4 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -832,7 +832,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     }
 
     pstr_dec_data->binaural_handle.str_binaural.memory_index +=
-        2048; // TODO: Replace 2048, with variable
+        ia_min_int(2048, pstr_dec_data->binaural_handle.str_binaural.processed_samples);
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
-- 
2.43.0


From db6101644cce1f1f68e6178e6b232221bf42b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 44/50] fix: binauralise HOA only when all its virtual speakers
 are there

---
 decoder/impeghd_binaural_renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index ba54120..b5134a9 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -394,7 +394,7 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
           break;
         }
       }
-      else
+      else if (wav_param->num_speaker_expected <= ptr_binaural_rep->td_binaural_ren_param.num_channel)
       {
         ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
         for (j = 0; j < wav_param->num_speaker_expected; j++)
-- 
2.43.0


From 25f4f6572141077f4ba672f9074d423fa32d6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 45/50] fix: make room for the triangles of layouts with many
 loudspeakers

---
 decoder/impeghd_obj_ren_dec.c            | 4 ++--
 decoder/impeghd_obj_ren_dec_defines.h    | 2 ++
 decoder/impeghd_obj_ren_dec_struct_def.h | 8 ++++----
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 3e9d85d..8fe0a92 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -1065,8 +1065,8 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
   WORD32 cicp_idx;
   const WORD32 *in_channel_names;
   WORD32 num_visible_triangles = 0, num_additional_triangles = 0;
-  ia_renderer_ls_triangle visible_triangle[CICP_MAX_NUM_LS] = {{{0}}};
-  ia_renderer_ls_triangle additional_triangle[CICP_MAX_NUM_LS] = {{{0}}};
+  ia_renderer_ls_triangle visible_triangle[OBJ_REN_MAX_TRIANGLES] = {{{0}}};
+  ia_renderer_ls_triangle additional_triangle[OBJ_REN_MAX_TRIANGLES] = {{{0}}};
   ia_ls_ord_idx_params ls_ord_idx[CICP_MAX_NUM_LS] = {{0}};
   ia_ls_ord_idx_params ls_ord_idx_scratch[CICP_MAX_NUM_LS] = {{0}};
 
diff --git a/decoder/impeghd_obj_ren_dec_defines.h b/decoder/impeghd_obj_ren_dec_defines.h
index 6b18e58..aed3b5e 100644
--- a/decoder/impeghd_obj_ren_dec_defines.h
+++ b/decoder/impeghd_obj_ren_dec_defines.h
@@ -43,6 +43,8 @@
 #define MDAP_ALPHA_MIN_VAL_DEGREE (0.001f)
 #define MDAP_ALPHA_MAX_VAL_DEGREE (90.0f)
 #define CICP_MAX_NUM_LS (44)
+/* a convex polyhedron of n vertices has at most 2 * n - 4 triangles */
+#define OBJ_REN_MAX_TRIANGLES (2 * CICP_MAX_NUM_LS)
 #define ROW_SIZE (9)
 #define ANGLE_ZERO_TO_TWO_PI (361)
 #define FOUR_BIT (16)
diff --git a/decoder/impeghd_obj_ren_dec_struct_def.h b/decoder/impeghd_obj_ren_dec_struct_def.h
index 9d25bc6..82c902b 100644
--- a/decoder/impeghd_obj_ren_dec_struct_def.h
+++ b/decoder/impeghd_obj_ren_dec_struct_def.h
@@ -108,12 +108,12 @@ typedef struct
   ia_cicp_ls_geo_str *ptr_cicp_ls_geo[CICP_MAX_NUM_LS];
   ia_oam_dec_state_struct str_obj_md_dec_state;
   ia_renderer_ls_params non_lfe_ls_str[CICP_MAX_NUM_LS];
-  ia_renderer_ls_triangle ls_triangle[CICP_MAX_NUM_LS];
-  ia_renderer_ls_inv_mtx ls_inv_mtx[CICP_MAX_NUM_LS];
+  ia_renderer_ls_triangle ls_triangle[OBJ_REN_MAX_TRIANGLES];
+  ia_renderer_ls_inv_mtx ls_inv_mtx[OBJ_REN_MAX_TRIANGLES];
 
   // Scratch buffers
-  ia_ls_edge_params edge_params[CICP_MAX_NUM_LS];
-  ia_ls_edge_params non_dup_edges[CICP_MAX_NUM_LS];
+  ia_ls_edge_params edge_params[3 * OBJ_REN_MAX_TRIANGLES];
+  ia_ls_edge_params non_dup_edges[3 * OBJ_REN_MAX_TRIANGLES];
   WORD32 num_non_dup_edges;
   ia_local_setup_struct *pstr_local_setup;
   ia_cicp_ls_geo_str array_cicp_ls_geo[CICP_MAX_NUM_LS];
-- 
2.43.0


From dc03dff1fcb60dce808bce45b60d3c3dbd67de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 46/50] fix: clear the downmix of imaginary loudspeakers when
 the layout changes

---
 decoder/impeghd_obj_ren_dec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 8fe0a92..a64e1a7 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -868,6 +868,7 @@ VOID impeghd_remap_imag_spks(ia_obj_ren_dec_state_struct *ptr_obj_ren_dec_state)
   WORD32 total_spks = num_real_spks + num_imag_spks;
   FLOAT32 scratch_mtx[CICP_MAX_NUM_LS][CICP_MAX_NUM_LS];
   memset(scratch_mtx, 0, sizeof(scratch_mtx));
+  memset(ptr_obj_ren_dec_state->downmix_mtx, 0, sizeof(ptr_obj_ren_dec_state->downmix_mtx));
   for (i = (num_real_spks); i > 0; i--)
   {
     ptr_obj_ren_dec_state->downmix_mtx[i - 1][i - 1] = 1.0f;
-- 
2.43.0


From a213b9c915d0fa8c0f5829cee410f5c60c25e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 47/50] fix: pass object gains on in layouts without imaginary
 loudspeakers

---
 decoder/impeghd_obj_ren_dec.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index a64e1a7..93441b5 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -1289,10 +1289,7 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
            num_additional_triangles * sizeof(ptr_obj_ren_dec_state->ls_triangle[0]));
     ptr_obj_ren_dec_state->num_triangles = num_additional_triangles;
   }
-  if (ptr_obj_ren_dec_state->num_imag_ls > 0)
-  {
-    impeghd_remap_imag_spks(ptr_obj_ren_dec_state);
-  }
+  impeghd_remap_imag_spks(ptr_obj_ren_dec_state);
   impeghd_vbap_core_init(ptr_obj_ren_dec_state);
 
   for (i = MAX_NUM_OAM_OBJS; i > 0; i--)
-- 
2.43.0


From 82a9aff16d2f23c6ac0a1c8b4c207ea4d4871158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 48/50] fix: read signal group information for the declared
 number of groups only

---
 decoder/ia_core_coder_init_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index b64bf83..08ee414 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -701,7 +701,7 @@ static VOID impeghd_sig_group_info(ia_bit_buf_struct *it_bit_buff, ia_signals_3d
 {
   WORD32 grp;
 
-  for (grp = 0; grp <= (WORD32)ptr_signal_3d->num_sig_group; grp++)
+  for (grp = 0; grp < (WORD32)ptr_signal_3d->num_sig_group; grp++)
   {
     ptr_signal_3d->group_priority[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 3);
     ptr_signal_3d->fixed_position[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 1);
-- 
2.43.0


From bc1d1b7e8d6f1ba164c9720d4cab2c6b67ad51b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 49/50] fix: refuse downmix matrices longer than the stored
 payload

---
 decoder/ia_core_coder_init_config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 08ee414..90d6b08 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -796,6 +796,10 @@ static IA_ERRORCODE impeghd_parse_dmx_ext_config(ia_bit_buf_struct *it_bit_buff,
                 ia_core_coder_read_bits_buf(it_bit_buff, 5);
           }
           ia_core_coder_read_escape_value(it_bit_buff, &temp, 8, 8, 12);
+          if (temp > ASCPARSER_MAX_DMX_MATRIX_SIZE * 8)
+          {
+            return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+          }
           ptr_dmx_cfg->dmx_matrix[i].dmx_matrix_len_bits[l] = temp;
 
           byte_count = 0;
-- 
2.43.0


From 8044276bdc46fb985c3db7f23fd2cfab6d974c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 50/50] fix: honour the declared length of profile and signal
 group extensions

---
 decoder/ia_core_coder_init_config.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 90d6b08..f0b7616 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -944,7 +944,14 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     case ID_CONFIG_EXT_COMPATIBLE_PROFILELVL_SET:
     {
       pstr_usac_decoder_config->compat_profile_cfg_present = 1;
+      cnt_bits = it_bit_buff->cnt_bits;
       impeghd_compatible_profile_level_set(it_bit_buff, &pstr_usac_decoder_config->str_compatible_profile_config);
+      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
+      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
+      {
+        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
+      }
       break;
     }
     case ID_CONFIG_EXT_HOA_MATRIX:
@@ -1039,8 +1046,15 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     }
     case ID_CONFIG_EXT_SIG_GROUP_INFO:
     {
+      cnt_bits = it_bit_buff->cnt_bits;
       impeghd_sig_group_info(it_bit_buff, ptr_signal_3d);
       ptr_signal_3d->signal_grp_info_present = 1;
+      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
+      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
+      {
+        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
+      }
       break;
     }
     case ID_CONFIG_EXT_FILL:
-- 
2.43.0

