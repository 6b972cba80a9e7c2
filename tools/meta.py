"""Writes properties.jsonl and MANIFEST.json from the table below (run in /verif: python3 tools/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or ['return codes and output buffers of the public API'], claim=claim))
D = 'decoder/'
TESTS = 'The existing tests decode a mono 1 kHz sine and a handful of fixed files from beginning to end with default options; '

prop('C01', 'Decoder instances live and die cleanly, also when memory runs out',
     'Creating, using and deleting any number of decoder instances in any order never leaks, double-frees or shares memory; when an allocation fails, creation reports the failure and deletion still releases everything. What other instances do never changes what an instance decodes.',
     ['histories', 'fault_sequences'], 'Every interleaving of create, decode and delete calls on several instances, every position of a failing allocation, every stream decoded in between.',
     TESTS + 'no test creates two instances, deletes one early or lets an allocation fail.',
     [D + 'impeghd_api.c', D + 'ia_core_coder_create.c'], [('allocation of the memory tables at creation and release at deletion', D + 'impeghd_api.c: ia_mpegh_dec_create, ia_mpegh_dec_delete')],
     'stateful property-based testing: random API histories with injected allocation faults against a model of the live instances', 'Random histories; an allocation failure at every position of creation. Trusts the allocator wrapper of the test driver.')
prop('C02', 'Output depends on the stream and settings only',
     'Decoding the same bytes with the same settings gives bit-identical output whatever the contents and placement of the memory the caller provides, whatever the instance or process did before and whatever other instances do in between.',
     ['histories', 'schedules', 'inputs'], 'All streams, all fills and alignments of the provided memory, all interleavings of calls on several instances.',
     TESTS + 'each runs one decoder once in fresh memory, so a read of uninitialised or shared memory goes unnoticed.',
     [D + 'impeghd_api.c', D + 'ia_core_coder_decode_main.c', D + 'ia_core_coder_process.c'], [('per-instance persistent and scratch memory, cleared at initialisation', D + 'impeghd_api.c')],
     'property-based testing: differential runs of random streams under different memory contents, placements and interleavings', 'Bit-exact comparison of random streams (frequency-domain tools of all kinds) over memory fills, alignments, interleavings and reuse.')
prop('C03', 'Calls report progress truthfully and chunking does not matter',
     'Every call consumes at least one byte and never more than it was given, so a caller that advances by the reported amount always terminates. As long as every access unit is complete in the buffer, how much data follows it does not change any output or status.',
     ['inputs', 'histories'], 'All streams - valid, truncated, corrupted - and all ways to cut them into calls.',
     TESTS + 'the test bench always fills the input buffer in the same way and only feeds valid data.',
     [D + 'impeghd_api.c', D + 'ia_core_coder_decode_main.c', D + 'ia_core_coder_bitbuffer.c'], [('bytes-consumed accounting of init and execute', D + 'impeghd_api.c: ia_mpegh_dec_init, ia_mpegh_dec_execute'), ('input exhaustion is detected in the bit reader', D + 'ia_core_coder_bitbuffer.c')],
     'property-based testing: random streams with random cuts, truncations and corruptions; metamorphic relation between cuts', 'Random cuts of random valid and damaged streams. Two accounting defects were found and repaired.')
prop('C04', 'Transport packets without audio do not change the audio',
     'Inserting filler, unknown, reserved and other skippable packets, synchronisation packets and unchanged configuration packets, and choosing other packet labels or header forms, leaves the decoded audio bit-identical; each call consumes exactly the packets up to and including one access unit.',
     ['inputs'], 'All valid streams and all sequences of well-formed packets of skippable types, sizes and labels between their access units.',
     TESTS + 'their streams contain three packet types with short headers only.',
     [D + 'impeghd_mhas_parse.c', D + 'ia_core_coder_decode_main.c', D + 'ia_core_coder_headerdecode.c'], [('packet header parsing and skipping', D + 'impeghd_mhas_parse.c'), ('detection of an unchanged configuration', D + 'ia_core_coder_decode_main.c')],
     'property-based testing: metamorphic insertion of random packets into random streams', 'Bit-exact comparison with the stream without the insertions. Loudness and PCM packets are not inserted.')
prop('C06', 'Every PCM format is a correct, saturated rendering of one signal',
     'The 16-, 24- and 32-bit outputs of a stream are truncations of the same signal. A signal beyond full scale gives the extreme value of the right sign in every format and never wraps.',
     ['inputs', 'configurations'], 'All streams, levels up to far beyond full scale, all three word sizes and all channel counts.',
     TESTS + 'signals stay far below full scale and the word size is 16 bit throughout.',
     [D + 'ia_core_coder_decode_main.c', D + 'ia_core_coder_cnst.h'], [('conversion of samples to the requested word size', D + 'ia_core_coder_decode_main.c: sample writing')],
     'property-based testing: differential between word sizes and against an independent reference decode', 'Reference decode in double precision; formats compared sample by sample. One saturation defect found and repaired.')
prop('C07', 'The decoder describes its output truthfully',
     'The sampling rate, channel count, word size, layout and the azimuth, elevation and low-frequency flag of every loudspeaker reported after initialisation are those of the configuration in the stream or of the layout the caller asked for. Every call delivers whole frames of that many channels at that word size and rate.',
     ['configurations', 'inputs'], 'All stream configurations described by a layout index or by a list of loudspeakers, all target layouts, word sizes and output rates.',
     TESTS + 'one configuration is used and the reported values are not looked at.',
     [D + 'impeghd_api.c', D + 'impeghd_cicp_2_geometry.c', D + 'impeghd_cicp_2_geometry_rom.c', D + 'ia_core_coder_init_config.c'], [('output configuration filled in after initialisation', D + 'impeghd_api.c: ia_mpegh_dec_init'), ('loudspeaker tables', D + 'impeghd_cicp_2_geometry_rom.c')],
     'property-based testing: random configurations against an independently written table of loudspeaker positions', 'Flexible loudspeaker descriptions (angles in the stream) are not covered. One defect (target layout 20) found and repaired.')
prop('C08', 'Frequency-domain coded channels decode to the standard\'s signal',
     'For any valid sequence of frequency-domain access units, every output channel equals the signal that the standard\'s entropy decoding, dequantisation, block switching and inverse transform define, in the order of the channels in the configuration.',
     ['inputs', 'histories', 'configurations'], 'All spectra, scale factors, window sequences and shapes, groupings, transform lengths, sampling rates and arrangements of single, paired and low-frequency elements.',
     TESTS + 'so one window sequence and a few scale-factor bands of one channel are exercised.',
     [D + 'ia_core_coder_arith_dec.c', D + 'ia_core_coder_spectrum_dec.c', D + 'ia_core_coder_imdct.c', D + 'ia_core_coder_windowing.c', D + 'ia_core_coder_ext_ch_ele.c', D + 'ia_core_coder_process.c', D + 'impeghd_fft.c'],
     [('arithmetic decoding', D + 'ia_core_coder_arith_dec.c'), ('section, scale-factor and spectrum decoding', D + 'ia_core_coder_spectrum_dec.c'), ('inverse transform, windowing and overlap', D + 'ia_core_coder_imdct.c')],
     'property-based testing: random bit streams from an independent encoder, compared with a double-precision reference decoder', 'Single-precision tolerance of 2e-5 of the element\'s peak. Non-zero aliasing symmetries of the transform kernels are not generated.')
prop('C09', 'Joint stereo decodes to the standard\'s left and right signals',
     'For any valid channel pair, mid/side coding and complex-valued prediction - per band, with real and imaginary coefficients, delta coding over time and frequency, either prediction direction and the previous frame\'s downmix - and filling of empty bands from the previous frame\'s downmix give the left and right signals the standard defines.',
     ['inputs', 'histories'], 'All band masks, prediction coefficients, window sequences and histories of frames with and without prediction.',
     TESTS + 'there is no channel pair in them.',
     [D + 'ia_core_coder_ext_ch_ele.c', D + 'ia_core_coder_process.c'], [('mid/side and complex prediction', D + 'ia_core_coder_ext_ch_ele.c')],
     'property-based testing: random bit streams from an independent encoder, compared with a double-precision reference decoder', 'Single-precision tolerance. The previous downmix is used only between frames of equal transform length. One defect (common TNS data of pairs) found and repaired.')
prop('C10', 'Noise filling, TNS, prediction and post-filter follow the standard',
     'Noise filling, temporal noise shaping, frequency-domain prediction and the long-term post-filter, alone and together, give the signal the standard defines, frame after frame, including switching them on, off and to other parameters.',
     ['inputs', 'histories'], 'All tool parameters, filter orders and directions, lags and gains, and all histories of switching.',
     TESTS + 'none of these tools is active in them.',
     [D + 'ia_core_coder_tns.c', D + 'ia_core_coder_ltpf.c', D + 'ia_core_coder_spectrum_dec.c', D + 'ia_core_coder_ext_ch_ele.c'], [('temporal noise shaping', D + 'ia_core_coder_tns.c'), ('long-term post-filter', D + 'ia_core_coder_ltpf.c'), ('noise filling and frequency-domain prediction', D + 'ia_core_coder_spectrum_dec.c')],
     'property-based testing: random bit streams from an independent encoder, compared with a double-precision reference decoder', 'Single-precision tolerance, widened where the post-filter\'s linear prediction is ill-conditioned. TNS filters have bounded gain.')
prop('C20', 'The peak limiter enforces its threshold and only acts when needed',
     'Where the limiter is in the path, no output sample exceeds its threshold, a signal that stays below the threshold is only delayed, and the common gain of all channels follows the look-ahead attack and release law. The gain depends on the signal only, not on how it is cut into frames.',
     ['inputs', 'histories'], 'All signals, levels, numbers of channels and frame boundaries.',
     TESTS + 'their signals never reach the threshold.',
     [D + 'impeghd_peak_limiter.c', D + 'ia_core_coder_decode_main.c'], [('look-ahead gain computation and smoothing', D + 'impeghd_peak_limiter.c')],
     'property-based testing: random loud streams against a reference model of the limiter', 'Model applied to the reference decode; 3e-4 of full scale while the gain is below one, bit-transparent tolerance elsewhere.')
EXTRA = os.path.join(V, 'tools', 'meta_more.py')
if os.path.exists(EXTRA): exec(open(EXTRA).read())
P.sort(key=lambda p: p['id'])
for p in P: assert len(p['title']) <= 80, p['title']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
checks = [dict(property=p['id'], quick_cmd='python3-vt -m vt.check %s --tier quick' % p['id'], thorough_cmd='python3-vt -m vt.check %s --tier thorough' % p['id'],
               technique=p['technique'], level='exploration', level_note=p['note']) for p in P if p['claim'] is True]
na = [dict(property=p['id'], reason=p['claim']) for p in P if p['claim'] is not True]
json.dump(dict(version=1, setup_cmd='python3-vt -m vt.build plain asan', checks=checks, not_applicable=na,
               notes='All checks drive the public API of the decoder built from /repo by vt/build.py; no hooks in /repo are needed.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import sys; sys.path.insert(0, os.path.join(V, 'tools'))
import design; design.run(P)
