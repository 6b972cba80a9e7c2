"""Writes DESIGN.md from tools/DESIGN.in.md, the properties, known_findings.json and seeded/ (run by tools/meta.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
D = {}
def d(id, gen, oracle, bounds): D[id] = (gen, oracle, bounds)
d('C01', 'histories of create (all settings), bind, init, execute, damaged input, delete on 1..6 instances in one process; an allocation failure at each of the 6 requests',
  'model of the live instances: allocator balance, return code of the failing creation, other instances decode what they decode alone', 'histories of up to ~40 calls; short streams')
d('C02', 'random valid and damaged streams; fill pattern and alignment of caller memory, earlier use of the instance and process, interleaved instances', 'bit-identical output and reports between the runs', '1..8 frames per stream')
d('C03', 'random streams, valid / truncated / corrupted, cut at random into calls', 'byte-accounting invariants; identical output for every cut', 'cuts leave access units complete, except in the truncation cases')
d('C04', 'insertion of skippable packets, repeated configuration, other labels and header forms', 'bit-identical audio', 'loudness and PCM packets not inserted')
d('C05', 'grammar-based configurations (all elements, extensions, DRC, loudness, downmix, ASI, MCT, LPD, IGF, HOA), metadata blobs, plus mutations and noise', 'AddressSanitizer, UBSan bounds, termination, byte accounting', 'seeds are fixed per run; the thorough tier raises the count')
d('C06', 'levels up to 40 dB above full scale, all formats', 'the reference decode, truncated and clamped; formats agree', '')
d('C07', 'layout indices, speaker lists, targets, rates, word sizes', 'independently written speaker table', 'flexible loudspeaker descriptions not generated')
d('C08', 'bit streams from an independent arithmetic encoder: all window sequences, groupings, scale factors, spectra', 'double-precision reference decoder vt/fd.py', 'see "not generated" below')
d('C09', 'as C08 with M/S and complex prediction', 'vt/fd.py', 'previous downmix only between equal transform lengths')
d('C10', 'as C08 with noise filling, TNS, FDP, LTPF', 'vt/fd.py', 'stereo filling with long windows only')
d('C11', 'random gap filling configurations and side information in random streams', 'vt/igf.py on top of the reference decoder, written from the standard', 'single-precision decisions compared loosely (7 % of the channel frames)')
d('C12', 'random MCT payloads in random signal groups on top of C08 streams', 'vt/mct.py, written from the standard', 'payload present in every frame; rotation fill of short windows not generated')
d('C14', 'random loudnessInfoSets and targets', 'vt/drc.py loud_of and a constant gain applied to the plain decode', 'targets in whole dB (API truncates quarter dB)')
d('C15', 'random object metadata histories (all coding modes), objects with and without a channel bed, on the standard layouts and on random speaker lists, with configuration extensions', 'vt/vbap.py (triangulation, panning, spread) and vt/oam.py (metadata meaning, ramps)', 'metadata payload in every frame')
d('C16', 'random streams over all pairs of layouts', 'vt/fc.py: rules, equalisers and active downmix in double precision', 'rule table taken over from the code')
d('C18', 'random streams (layouts, speaker lists, target layouts, objects) with random binaural files', 'direct convolution of the decode without binaural output (vt/brir.py)', 'two ears; Ambisonics responses not generated')
d('C19', 'streams at the convertible rates', 'least-squares identified interpolation from a noise stream, quality bounds on its response, prediction of every other output', 'config changes during resampling not generated')
d('C20', 'loud streams', 'vt/lim.py applied to the reference decode', '')
d('C24', 'streams, formats, options in both transports', 'bit-identical output, exact consumption', '')
d('C25', 'concatenations of 2..4 streams with different configurations', 'fresh decoder on the rest', 'no resampling')
d('C26', 'streams with useless extensions, also on speaker lists and with a target layout', 'bit-identical audio to the stream without them', 'payload <= 1000 bytes')
d('C27', 'random uniDrcConfig, instructions, gain payloads', 'vt/drc.py: selection and per-sample gains times the plain decode', 'linear interpolation; payload in every frame')
d('C23', 'random channel and object streams and metadata histories', 'parsed metadata buffers against the coded metadata; 24-bit samples against the reference decoder; output with and without', 'no ambisonics, no downmix matrices')
d('C28', 'random downmix configurations, all codings of a matrix', 'vt/dmxmtx.py meaning of the matrix + vt/fc.py converter', 'one matrix per layout')
d('C29', 'random ambisonics configurations and frame histories, with and without a channel bed, for the layout of the stream or another one', 'vt/hoa.py (meaning of the transport channels) and the matrices of vt/hoa.npz', 'orders 1-6, ambience up to order 3, at most 16 core channels; no directional signals, all three vector lengths; no vector quantisation; no bed together with another layout')
def run(P):
    out = ['| id | property | generated | oracle | bounds | cases per quick run |', '|---|---|---|---|---|---|']
    for p in P:
        g, o, b = D.get(p['id'], ('', p['technique'], p['note']))
        q = ''
        f = os.path.join(V, 'vt/checks/%s.py' % p['id'].lower())
        if os.path.exists(f):
            m = re.search(r'QUICK[^=]*=\s*([0-9, ]+)', open(f).read()); q = m.group(1).strip() if m else ''
        out.append('| %s | %s | %s | %s | %s | %s |' % (p['id'], p['title'], g, o, b, q))
    k = json.loads(rd('known_findings.json'))['findings']
    de = []
    for f in k: de.append('* ' + f['what'])
    se = ['| id | property | needs | breaks |', '|---|---|---|---|']
    S = os.path.join(V, 'seeded')
    for s in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, s, 'meta.json')))
        se.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks']))
    t = rd('tools/DESIGN.in.md')
    for a, b in (('PROPTABLE', out), ('DEFECTS', de), ('SEEDED', se)): t = re.sub(r'(?m)^%s$' % a, lambda _: '\n'.join(b), t)
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
