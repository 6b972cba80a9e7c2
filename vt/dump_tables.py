"""One-off: dumps the standard's (ISO/IEC 23008-3 / 23003-3) normative constant tables from a shared-library build of the
pristine decoder into vt/tables.npz.  Not run by any check; the committed file is trusted input data of the models."""
import ctypes as C, numpy as np, sys
L = C.CDLL(sys.argv[1]); T = {}
def arr(name, ty, n): return np.array((ty * n).in_dll(L, name))
i8, i16, u16, i32, u32, f32 = C.c_int8, C.c_int16, C.c_uint16, C.c_int32, C.c_uint32, C.c_float
T['ari_hash_m'] = arr('ia_core_coder_ari_hash_m', u32, 0xb98 // 4)
T['ari_hash_m_1'] = arr('ia_core_coder_ari_hash_m_1', C.c_uint8, 0x2e6)
T['ari_lookup_m'] = arr('ia_core_coder_ari_lookup_m', u16, 0x5cc // 2)
T['ari_cf_m'] = arr('ia_core_coder_ari_cf_m', u16, 0x880 // 2).reshape(-1, 17)
T['ari_cf_r'] = arr('ia_core_coder_ari_cf_r', u16, 0x18 // 2).reshape(3, 4)
T['esc_nb'] = arr('ia_core_coder_esc_nb_offset', i32, 8)
hb = arr('ia_core_coder_book_scl_huff_code_word', i32, 0x5ac // 4).reshape(-1, 3)
T['scf_huff'] = hb
T['tns_max_bands'] = arr('ia_core_coder_mpeghd_block_tables', i32, 32).reshape(16, 2)
T['fdp_exp'] = arr('ia_core_coder_fdp_exp', u16, 0x16c // 2)
T['fdp_scf'] = arr('ia_core_coder_fdp_scf', u16, 0x7e // 2)
T['fdp_s1'] = arr('ia_core_coder_fdp_s1', u16, 0x102 // 2); T['fdp_s2'] = arr('ia_core_coder_fdp_s2', i16, 0x102 // 2)
T['harm'] = arr('ia_core_coder_harmonic_spacing', i32, 256)
for r, n in (('96', 41), ('64', 47), ('48', 49), ('32', 51), ('24', 47), ('16', 43), ('8', 40)):
    T['sfbL_' + r] = arr('ia_core_coder_sfb_%s_1024' % r, i16, n)
for r, n in (('96', 12), ('64', 12), ('48', 14), ('24', 15), ('16', 15), ('8', 15)):
    T['sfbS_' + r] = arr('ia_core_coder_sfb_%s_128' % r, i16, n)
for nm in ('long_sin long_kbd long_sin_kbd long_kbd_sin start_sin start_kbd start_sin_kbd start_kbd_sin stop_sin stop_kbd stop_sin_kbd '
           'stop_kbd_sin stopstart_sin stopstart_kbd stopstart_sin_kbd stopstart_kbd_sin l_s_start_left_sin l_s_start_left_kbd '
           'stop_stopstart_left_sin stop_stopstart_left_kbd').split():
    T['mdst_' + nm] = arr('ia_core_coder_mdst_fcoeff_' + nm, f32, 7)
T['ltpf1'] = arr('ia_ltpf_filter_coef1', f32, 16); T['ltpf2'] = arr('ia_ltpf_filter_coef2', f32, 28)
T['mc_angle_code'] = arr('impeghd_mc_huff_code_tbl_angle', i32, 65); T['mc_angle_len'] = arr('impeghd_mc_huff_len_tbl_angle', i32, 65)
T['mc_scf_code'] = arr('impeghd_mc_huff_code_tbl_scf', i32, 121); T['mc_scf_len'] = arr('impeghd_mc_huff_len_tbl_scf', i32, 121)
for n, k in (('01', 1), ('10', 1), ('02', 7), ('20', 7), ('11', 49)): T['igf_cf_' + n] = arr('ia_core_coder_cf_se_' + n, u16, 27 * k).reshape(k, 27)
for n, k in (('02', 7), ('20', 7), ('11', 49)): T['igf_off_' + n] = arr('ia_core_coder_cf_offset_se_' + n, i16, k)
T['igf_acf'] = arr('ia_core_coder_tnf_acf_win', f32, 8)
for k, v in T.items(): print(k, v.shape, v.dtype, v.ravel()[:6])
np.savez_compressed(sys.argv[2], **T)
