prop('C25', 'A new configuration acts like a fresh decoder',
     'When the configuration in a stream changes - layout, sampling rate, elements or coding tools - everything decoded from then on, and everything reported about it, is what a newly created decoder would give for the rest of the stream. Nothing of the earlier configuration lingers.',
     ['histories', 'configurations'], 'All sequences of configurations and of the access units between them, with and without a target layout.',
     TESTS + 'no test stream changes its configuration.',
     [D + 'impeghd_api.c', D + 'ia_core_coder_decode_main.c', D + 'ia_core_coder_create.c', D + 'ia_core_coder_headerdecode.c'], [('state cleared and initialisation repeated on a change of configuration', D + 'impeghd_api.c: ia_core_coder_decoder_flush_api'), ('detection of the change', D + 'ia_core_coder_decode_main.c')],
     'stateful property-based testing: random concatenations of random streams, differential against fresh decoders', 'Bit-exact comparison. Without output resampling; a fifth of the cases take sets of loudness and DRC, a quarter the external-rendering output. Three defects found and repaired.')
prop('C24', 'Raw access units and MHAS packets decode alike',
     'A configuration followed by access units, handed over one per call as an MP4 reader does, decodes to the same samples, layout report and per-frame report as the same units wrapped in MHAS packets; each call consumes exactly one unit, whatever follows it in the buffer.',
     ['inputs', 'configurations'], 'All streams, transports, PCM widths, target layouts and output rates; all amounts of data after the unit in the input buffer.',
     TESTS + 'one MP4 and one MHAS file of the same mono sine are decoded, and their outputs are not compared.',
     [D + 'impeghd_api.c', D + 'ia_core_coder_decode_main.c', D + 'impeghd_mhas_parse.c'], [('raw and packet paths', D + 'ia_core_coder_decode_main.c'), ('packet parsing', D + 'impeghd_mhas_parse.c')],
     'property-based testing: differential between the two transports of one random stream', 'Bit-exact comparison, including consumed byte counts.')
prop('C26', 'Extension data never disturbs the audio',
     'Extension elements the decoder has no use for (fill, reserved or unknown types, with any configuration, default length, fragmentation flag and payload), element length fields, audio pre-roll repeating the configuration in force, and configuration extensions of fill, reserved, compatibility-profile or signal-group kind leave the decoded audio bit for bit what it is without them.',
     ['inputs', 'configurations'], 'All placements of extension elements among the audio elements, all extension types and lengths, all speaker layouts and coding tools.',
     TESTS + 'the test streams carry no extension of any kind.',
     [D + 'ia_core_coder_init_config.c', D + 'ia_core_coder_process.c', D + 'ia_core_coder_decode_main.c'], [('extension element and configuration extension parsing', D + 'ia_core_coder_init_config.c'), ('extension payloads of access units', D + 'ia_core_coder_process.c: ia_core_coder_read_ext_element'), ('pre-roll', D + 'ia_core_coder_decode_main.c')],
     'property-based testing: metamorphic relation between a stream with and without extensions', 'Bit-exact comparison. Payloads up to 1000 bytes; pre-roll with a changed configuration is not covered. Two defects found and repaired.')
prop('C18', 'Binaural output is the loudspeaker signals through the given responses',
     'With binaural output the decoder delivers two signals: for each ear the sum over the loudspeakers, each convolved with the impulse response the application\'s file gives for its position, wherever it stands in that file, with the late part applied to the sum, in every frame and for every length the decoder accepts; a file that has no response for a loudspeaker or none for the sampling rate is refused.',
     ['inputs', 'configurations', 'histories'], 'Every layout, every set of responses, every signal.',
     TESTS + 'no test uses binaural output.',
     [D + 'impeghd_binaural.c', D + 'impeghd_binaural_renderer.c', D + 'ia_core_coder_decode_main.c'],
     [('reading the responses', D + 'impeghd_binaural.c'), ('positions to responses', D + 'impeghd_binaural_renderer.c'), ('block convolution', D + 'impeghd_binaural_renderer.c'), ('conversion of plain responses to direct and late part', D + 'impeghd_binaural.c'), ('transforms', D + 'impeghd_fft.c')],
     'property-based testing: random streams and response sets against a direct convolution (numpy) of the separately decoded loudspeaker signals', 'Both data formats the decoder accepts, with zero to two late blocks, up to 21 positions, plain responses up to 20000 taps. A file with several sets works only when the fitting one comes last: known finding. Ambisonics responses and flexible positions are not generated. Eight defects found and repaired.')
prop('C19', 'Output resampling is one fixed, clean interpolation',
     'With output resampling enabled at a supported ratio, every channel is the decoded signal passed through one fixed linear-phase interpolation: independent of frame boundaries, level, channel, layout and coding tools, gain 1 at zero frequency, pass band within 3 dB, images at least 50 dB down, output length, rate and channel count reported accordingly.',
     ['inputs', 'configurations'], 'All streams at the convertible sampling rates, all layouts, with and without a target layout.',
     TESTS + 'no test enables resampling.',
     [D + 'impeghd_resampler.c', D + 'impeghd_api.c', D + 'ia_core_coder_decode_main.c'], [('polyphase interpolation and decimation', D + 'impeghd_resampler.c'), ('ratio selection', D + 'impeghd_api.c: impeghd_resampler_get_sampling_ratio')],
     'property-based testing: identification of the interpolation from one stream, prediction of all others', 'The response is identified by least squares from a noise stream and its quality checked; every other stream must follow it. One defect found and repaired.')
prop('C05', 'No input makes the decoder leave its memory or hang',
     'Whatever bytes are fed - random, damaged or well-formed streams with any configuration, extension elements, metadata blobs and settings - the decoder never accesses memory outside the objects it was given or its own arrays, never crashes or loops, and every call consumes between one byte and what it was given.',
     ['inputs', 'configurations'], 'All byte sequences, all decoder settings, all metadata buffers (loudspeaker setup, interaction, scene displacement, scene description boxes, binaural responses), all ways of splitting the input.',
     TESTS + 'only two valid files are ever decoded.',
     [D + '*.c'], [('parsing of configurations and access units', D + 'ia_core_coder_init_config.c, ia_core_coder_process.c'), ('interfaces for metadata', D + 'impeghd_ele_interaction_intrfc.c, impeghd_mae_mp4_intrfc.c'), ('input handling', D + 'impeghd_api.c, ia_core_coder_decode_main.c')],
     'structure-aware fuzzing: grammar-based random configurations and access units plus mutation, under AddressSanitizer and array-bound checks', 'All decoder state lies in one allocation, so array-bound checks inside it matter more than heap checks. Eight defects found and repaired. Integer overflow and similar arithmetic reports are not part of the property.')
prop('C27', 'Dynamic range control applies the transmitted gains',
     'With a target loudness, the DRC set that the requested effect, the target loudness and the stream’s peak and loudness information select - with the set it depends on and any ducking or fading set - multiplies each channel, sample by sample, with the gain curve transmitted for it: nodes interpolated linearly, scaled, offset, ducked or clipped as signalled, one frame after the payload that carries them, whatever the layout, sampling rate and position of the DRC element.',
     ['inputs', 'configurations'], 'All single-band DRC configurations (gain profiles, channel groups, gain modifications, ducking, fading, clipping, dependent sets, repeat codes), all gain payloads (node counts, times, slopes-free coding, frame ends, time alignment), all effect requests, target loudness values and loudness information.',
     TESTS + 'no test stream carries DRC, and no test sets an effect or a target loudness.',
     [D + 'impd_drc_static_payload.c', D + 'impd_drc_dynamic_payload.c', D + 'impd_drc_extr_delta_coded_info.c', D + 'impd_drc_gain_dec.c', D + 'impd_drc_process.c', D + 'impd_drc_selection_process.c', D + 'impd_drc_selection_process_drcset_selection.c', D + 'impd_drc_loudness_control.c', D + 'impd_drc_init.c'],
     [('gain payload decoding', D + 'impd_drc_extr_delta_coded_info.c'), ('gain interpolation', D + 'impd_drc_gain_dec.c'), ('DRC set selection', D + 'impd_drc_selection_process_drcset_selection.c'), ('application of the gains', D + 'impd_drc_process.c')],
     'property-based testing: generated DRC configurations and gain payloads against a reference model of selection and gain application', 'Relative tolerance 2e-5. Spline interpolation, group and preset dependent sets and equaliser tools are not generated. One defect found and repaired.')
prop('C14', 'Loudness normalisation reaches the target',
     'With a target loudness, every channel is the decoded signal times the constant gain target minus programme loudness, the programme loudness being the best measurement of the loudness information that fits the output, and 0 dB when there is none; album loudness, loudness of groups and presets, other kinds of measurements and extensions do not change it, nor does anything without a target loudness.',
     ['inputs', 'configurations'], 'All loudness information sets (downmixes, DRC sets, measurement methods, measurement systems, peaks, album entries, typed entries, extensions), all targets, all streams and layouts.',
     TESTS + 'no test stream carries loudness information, and no test sets a target loudness.',
     [D + 'impd_drc_static_payload.c', D + 'impd_drc_loudness_control.c', D + 'impd_drc_selection_process_drcset_selection.c', D + 'impeghd_api.c'],
     [('loudness information parsing', D + 'impd_drc_static_payload.c'), ('choice of the measurement', D + 'impd_drc_loudness_control.c: impd_drc_init_loudness_control'), ('target loudness', D + 'impeghd_api.c')],
     'property-based testing: generated loudness information against a reference model of the choice of measurement', 'Relative tolerance 2e-5; one case in eight also runs under AddressSanitizer. Three defects found and repaired.')
prop('C11', 'Gap filling restores the spectrum above the coded lines',
     'For any valid gap filling side information - levels coded in frequency or time direction, tiles and their whitening, noise, temporal flattening, filling before or after the noise shaping, high and low resolution, any range - the decoder gives the signals the standard defines: gaps, and only gaps, above the start are filled from the chosen source tiles with exactly the coded energy, for single channels, pairs filled independently or jointly (mid/side or predicted), and channels of the multichannel coding tool, through every sequence of long and short windows.',
     ['inputs', 'histories'], 'All gap filling configurations and side information, alone and with the stereo, prediction, noise shaping and multichannel coding tools, all window sequences, sampling rates and layouts.',
     TESTS + 'the test stream fills no gaps.',
     [D + 'ia_core_coder_igf_dec.c', D + 'ia_core_coder_ext_ch_ele.c', D + 'ia_core_coder_process.c', D + 'ia_core_coder_config.c', D + 'impeghd_tbl_igf*.c'],
     [('levels, tiles and whitening payload', D + 'ia_core_coder_igf_dec.c: ia_core_coder_igf_data_read'), ('filling of one channel', D + 'ia_core_coder_igf_dec.c: ia_core_coder_igf_mono'), ('joint filling', D + 'ia_core_coder_igf_dec.c: ia_core_coder_igf_stereo'), ('joint mask', D + 'ia_core_coder_ext_ch_ele.c'), ('ranges and tiles', D + 'ia_core_coder_igf_dec.c: ia_core_coder_igf_init')],
     'property-based testing: random bit streams from an independent encoder, compared with a double-precision reference decoder', 'Relative tolerance 4e-5; lines where single precision may decide a threshold the other way (whitening factor, cancelled line) are compared loosely, about 7 % of the channel frames. Fill data in LFE elements do not exist; multichannel coding is combined with gap filling without whitening and flattening. Five defects found and repaired.')
prop('C12', 'The multichannel coding tool restores the joint-coded channels',
     'For any valid payload of the multichannel coding tool - any set of channels of a signal group, any tree of pairs, prediction or rotation, full-band or per-band coefficients coded in frequency or time direction, masks, kept trees and stereo filling from the previous frame - the decoder gives the channel signals the standard defines, for any mix of elements, window sequences and signal groups, one frame after the other.',
     ['inputs', 'histories'], 'All payloads (pairs, signal types, masks, coefficients, delta directions, kept trees, stereo filling), all elements and channel sets including a second signal group, all window sequences and frame histories.',
     TESTS + 'no test stream uses the tool.',
     [D + 'impeghd_multichannel.c', D + 'ia_core_coder_process.c', D + 'ia_core_coder_arith_dec.c', D + 'ia_core_coder_decode_main.c'],
     [('payload parsing, prediction and rotation, stereo filling', D + 'impeghd_multichannel.c'), ('application to the spectra', D + 'ia_core_coder_process.c: ia_core_coder_usac_process'), ('levels of empty bands', D + 'ia_core_coder_arith_dec.c: ia_core_coder_apply_scfs_and_nf')],
     'property-based testing: random bit streams from an independent encoder, compared with a double-precision reference decoder', 'Single-precision tolerance, widened where stereo filling amplifies a cancelled downmix. Rotation-based stereo filling of eight short windows is not generated; gap filling is in C11. Two signal groups are compared with one of them silent. Four defects found and repaired.')
prop('C16', 'A target layout gets the standard\'s downmix',
     'With a target loudspeaker layout other than that of the stream, or groups of channels in layouts other than the reference layout, every output channel is what the standard\'s format converter gives for the decoded signal: the downmix rules (or, where they lead nowhere, panning between the target\'s loudspeakers), their gains and equalisers, and the phase-aligning energy-preserving downmix in its frequency bands, frame by frame, for every sampling rate and every pair of layouts.',
     ['inputs', 'configurations'], 'All pairs of source and target layouts, all convertible sampling rates, all signals.',
     TESTS + 'no test selects a target layout.',
     [D + 'impeghd_format_conv*.c', D + 'ia_core_coder_decode_main.c'],
     [('choice of the downmix rules and gains', D + 'impeghd_format_conv_init.c'), ('equalisers', D + 'impeghd_format_conv_init.c'), ('active downmix', D + 'ia_core_coder_decode_main.c'), ('frequency domain processing', D + 'impeghd_dmx_mtx.c'), ('panned fallback', D + 'impeghd_obj_ren_vbap.c')],
     'property-based testing: random streams and layout pairs against an independent reference converter', 'Tolerance 3e-5 of the sum of all signals. The rule table itself is taken over from the code. Streams with several groups of channels in their own layouts, with and without target, are included. Custom loudspeaker positions are not generated; downmix matrices in the stream are in C28. Six defects found and repaired.')
prop('C15', 'Objects are rendered where their metadata puts them',
     'Every audio object is panned to the loudspeakers of the layout by vector base amplitude panning at the azimuth and elevation of its metadata, spread by its width and height, with its gain, ramping linearly from the gains of one metadata period to those of the next; the metadata is decoded as coded (intra, absolute, differential, common, fixed, uniform spread, omitted), and a channel bed - converted, when there is a target layout, to which the objects are rendered directly - is added.',
     ['inputs', 'histories', 'configurations'], 'All object counts with or without channel bed, all layouts and speaker lists, all metadata coding modes and histories, metadata periods of 256, 512 and 1024 samples.',
     TESTS + 'no test stream carries objects.',
     [D + 'impeghd_oam_dec_ld.c', D + 'impeghd_obj_ren_dec.c', D + 'impeghd_obj_ren_vbap.c', D + 'ia_core_coder_decode_main.c'],
     [('object metadata', D + 'impeghd_oam_dec_ld.c'), ('triangulation of the loudspeakers', D + 'impeghd_obj_ren_dec.c'), ('panning gains, spread', D + 'impeghd_obj_ren_vbap.c'), ('ramps', D + 'impeghd_obj_ren_dec.c: impeghd_obj_renderer_dec')],
     'property-based testing: random object streams and metadata histories against an independent reference renderer', 'Tolerance 3e-5 of the sum of all signals. Frames without metadata payload, and screen-related, divergence and diffuseness metadata are not generated; layouts are the standard ones and random speaker lists with a loudspeaker below 45 degrees. Ten defects found and repaired.')
prop('C28', 'A transmitted downmix matrix replaces the conversion rules',
     'When the stream carries a downmix matrix for the requested loudspeaker layout, every output channel is the decoded signal converted with exactly the gains and equalisers of that matrix - whichever way it is coded - and with the rules of the standard when none of the matrices is for that layout.',
     ['inputs', 'configurations'], 'All pairs of source and target layouts, all matrices in all codings: separability and symmetry flags, raw or run-length significance, templates, raw or table gains of every range and precision, equalisers; any number of matrices for other layouts around it.',
     TESTS + 'no test stream carries a downmix matrix.',
     [D + 'impeghd_dmx_mtx.c', D + 'ia_core_coder_init_config.c', D + 'impeghd_format_conv_init.c'],
     [('downmix matrix payload', D + 'impeghd_dmx_mtx.c'), ('downmix configuration', D + 'ia_core_coder_init_config.c'), ('choice of the matrix', D + 'impeghd_format_conv_init.c')],
     'property-based testing: random downmix matrices written by an independent encoder, output compared with a reference converter using their meaning', 'Tolerance 3e-5 of the sum of all signals. The passive downmix flag and several matrices per layout are not generated. Two defects found and repaired (and three more in C05).')
prop('C29', 'Ambisonics reach the loudspeakers as transmitted',
     'A scene of higher order ambisonics is what its transport channels mean - the ambience on the directions of its grid, ambient coefficients sent directly, signals spread over the coefficients by their vectors and interpolated between frames, all with their transmitted gain corrections - rendered for the loudspeakers of the layout with one fixed matrix per order and layout, and added to the channels when there is a bed.',
     ['inputs', 'histories', 'configurations'], 'All orders 1-6, orders of the ambience, numbers and kinds of further transport channels, vectors, interpolation times and shapes, gain corrections and layouts, with and without a bed of channels; all sequences of frames.',
     TESTS + 'no test stream carries ambisonics.',
     [D + 'impeghd_hoa_frame.c', D + 'impeghd_hoa_config.c', D + 'impeghd_hoa_spatial_decoder.c', D + 'impeghd_hoa_amb_syn.c', D + 'impeghd_hoa_renderer.c', D + 'ia_core_coder_decode_main.c'],
     [('ambisonics frame payload', D + 'impeghd_hoa_frame.c'), ('coefficients from transport channels', D + 'impeghd_hoa_spatial_decoder.c'), ('rendering matrix', D + 'impeghd_hoa_simple_mtrx.c'), ('adding to the bed', D + 'ia_core_coder_decode_main.c: ia_core_coder_dec_ext_ele_proc')],
     'property-based testing: random ambisonics frames written by an independent encoder, output compared with a reference model of their meaning', 'Rendering matrices are reference data (measured coefficient by coefficient, then held against symmetry, direction and loudness of plane waves by tools/hoacheck.py); the eight pairs of layout and order whose matrix is not determined by the rendering rules are left out. No directional signals, no vector quantisation, no near field compensation. Two defects found and repaired.')
prop('C23', 'External rendering hands out the signals and their metadata',
     'With external rendering, every call hands out the decoded signals of all channels and objects as 24-bit samples, the channel metadata naming every signal group with its layout, and the object metadata - position, gain, spread, priority of every object, for each part of the frame - exactly as coded in the stream, while the ordinary output stays what it is without external rendering.',
     ['inputs', 'histories', 'configurations'], 'All streams with channels, objects or both, all layouts and speaker lists, all object metadata modes and histories.',
     TESTS + 'no test uses external rendering.',
     [D + 'impeghd_ext_rend_intrfc.c', D + 'ia_core_coder_decode_main.c', D + 'impeghd_oam_dec_ld.c'],
     [('channel metadata', D + 'impeghd_ext_rend_intrfc.c: impeghd_write_ch_meta_data_for_ext_ren'), ('object metadata', D + 'impeghd_ext_rend_intrfc.c: impeghd_write_oam_meta_data_for_ext_ren'), ('signals', D + 'ia_core_coder_decode_main.c')],
     'property-based testing: random streams; the buffers handed out are parsed and compared with the generated metadata and the reference decoder', 'Channel element identifiers, downmix matrices and ambisonics in the metadata are not compared. Three defects found and repaired.')
