/* every decoder header, in an order that compiles */
#ifndef VP_ALL_H
#define VP_ALL_H
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <impeghd_type_def.h>
#include "ia_core_coder_cnst.h"
#include "ia_core_coder_defines.h"
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_init.h"
#include "impd_drc_struct.h"
#include "impeghd_intrinsics_flt.h"
#include "ia_core_coder_acelp_info.h"
#include "ia_core_coder_bitbuffer.h"
#include "ia_core_coder_channel.h"
#include "ia_core_coder_channelinfo.h"
#include "ia_core_coder_definitions.h"
#include "ia_core_coder_interface.h"
#include "ia_core_coder_info.h"
#include "impeghd_memory_standards.h"
#include "ia_core_coder_rom.h"
#include "ia_core_coder_dec.h"
#include "ia_core_coder_tns_usac.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
#include "ia_core_coder_config.h"
#include "ia_core_coder_struct_def.h"
#include "ia_core_coder_headerdecode.h"
#include "impeghd_config_params.h"
#include "impeghd_error_codes.h"
#include "impeghd_mhas_parse.h"
#include "impeghd_multichannel.h"
#include "impeghd_tbe_dec.h"
#include "ia_core_coder_igf_data_struct.h"
#include "ia_core_coder_stereo_lpd.h"
#include "impeghd_binaural.h"
#include "impeghd_binaural_renderer.h"
#include "impeghd_cicp_2_geometry.h"
#include "impeghd_cicp_defines.h"
#include "impeghd_cicp_struct_def.h"
#include "impeghd_ele_interaction_intrfc.h"
#include "impeghd_format_conv_defines.h"
#include "impeghd_format_conv_rom.h"
#include "impeghd_format_conv_data.h"
#include "impeghd_dmx_mtx_data.h"
#include "impeghd_hoa_data_types.h"
#include "impeghd_hoa_dec_struct.h"
#include "impeghd_hoa_frame_params.h"
#include "impeghd_hoa_nfc_filtering.h"
#include "impeghd_hoa_space_positions.h"
#include "impeghd_hoa_simple_mtrx.h"
#include "impeghd_hoa_render_mtrx.h"
#include "impeghd_hoa_renderer.h"
#include "impeghd_hoa_spatial_decoder_struct.h"
#include "impeghd_hoa_spatial_decoder.h"
#include "impeghd_hoa_decoder.h"
#include "impeghd_3d_vec_struct_def.h"
#include "impeghd_oam_dec_defines.h"
#include "impeghd_oam_dec_struct_def.h"
#include "impeghd_oam_dec.h"
#include "impeghd_obj_ren_dec_defines.h"
#include "impeghd_obj_ren_dec_struct_def.h"
#include "impeghd_obj_ren_dec.h"
#include "impeghd_uni_drc_struct.h"
#include "ia_core_coder_main.h"
#include "ia_core_coder_arith_dec.h"
#include "ia_core_coder_struct.h"
#include "impeghd_peak_limiter_struct_def.h"
#include "impeghd_resampler.h"
#include "ia_core_coder_create.h"
#include "ia_core_coder_dec_main.h"
#include "impd_drc_host_params.h"
#include "impeghd_cicp_2_geometry_rom.h"
#include "impeghd_metadata_preprocessor.h"
#include "impeghd_ext_rend_intrfc.h"
#include "impeghd_ext_rend_intrfc_util.h"
#include "impeghd_api.h"
#include "ia_core_coder_api_defs.h"
#include "ia_core_coder_apicmd_standards.h"
#include "ia_core_coder_constants.h"
#include "ia_core_coder_env_extr.h"
#include "ia_core_coder_function_selector.h"
#include "impeghd_ver_number.h"
#include "impeghd_mae_mp4_intrfc.h"
#include "impeghd_fft_ifft_rom.h"
#include <ia_core_coder_interface.h>
#include <ia_core_coder_info.h>
#include <ia_core_coder_constants.h>
#include "impeghd_hoa_config.h"
#endif
