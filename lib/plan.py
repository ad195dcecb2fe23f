"""What each property's check explores: harness, bounds, what must be reached."""
THOROUGH_SECS = 5400
FREE, NONE = 256, 257

class T:
    def __init__(s, harness, *params, covers=(), thorough=False, big=False, secs=150, samples=None, about=None, steps=0):
        s.harness, s.params, s.covers, s.thorough, s.big, s.secs, s._about, s.steps = harness, list(params), list(covers), thorough, big, secs, about, steps
        s.samples = samples if samples is not None else (16 if big else 2)
    def name(s): return f'{s.harness}({",".join(map(str, s.params))})'
    def about(s):
        if s._about: return s._about
        d = DOC.get(s.harness)
        return d(*s.params) if d else ''

fv = lambda x: 'any' if x == FREE else 'no' if x == NONE else f'{x:02X}h'
FRAMES = lambda k: FRAMES_OF(k) if k >= 1000 else ['acknowledgement', 'short frame', 'long frame with an arbitrary control byte, address and data', 'long frame with an arbitrary checksum and stop byte', 'long frame with arbitrary CI and data', 'telegram of recorded layout'][k] if k < 6 else f'{k - 5} byte string'
TABLE = ['', ' of the primary table', ' of the FBh table', ' of the FDh table']
PARTS = lambda w: ', '.join(t for b, t in ((1, 'identification'), (2, 'manufacturer and version'), (4, 'medium'), (8, 'access number, status and configuration')) if w & b)
SOURCE = lambda k, n: f'recorded frame {k - 10000}' if k >= 10000 else f'realistic frame {k}' if k < 4 else f'telegram of shape {k} (up to {n} bytes of user data)'
FRAMES_OF = lambda k: SOURCE(k - 1000, 40 + (k - 1000) % 160)
HISTORY = ['frames of arbitrary bytes', 'short frames', 'messages with long header: arbitrary version, medium, status of three manufacturers', 'records of arbitrary bytes', 'dates', 'texts', 'BCD numbers', 'record lists', 'manufacturer data', 'application selections', 'application errors', 'date-times', 'records with two DIFEs', 'records with VIFEs', 'telegrams with two arbitrary bytes', 'messages with long header, few versions and media', 'records of each data field', 'texts of one character',
    'unit texts', 'floating point values', 'variable length values', 'date-times with seconds, times and daylight saving', 'records with one DIFE', 'messages with short header and one record',
    'messages of every kind with the same payload', 'long frames with arbitrary control and address', 'long frames with arbitrary end', 'records of arbitrary VIF', 'long headers of arbitrary identification', 'binary numbers', 'records with two VIFEs',
    'VIFE chains', 'DIFE chains', 'unit texts', 'texts', 'long numbers', 'binary numbers', 'manufacturer data', 'time messages with payload', 'long headers of arbitrary identification, version, status and configuration', 'manufacturer errors', 'variable length BCD',
    'variable length dates', 'VIFE chains behind an extension', 'intact frames with payload', 'negative variable length BCD', 'record lists', 'records with both chains', 'a partial long frame given up, then a long frame', 'a partial short frame given up, then a short frame', 'partial telegrams']
DOC = {
    'packet': lambda n: f'every byte string of length {n} as a frame',
    'short_frame': lambda n: f'10h and {n} arbitrary bytes',
    'long_ok': lambda n, ci: f'intact long frame, {n} bytes of user data, CI {fv(ci)}, control, address and data arbitrary',
    'long_sum': lambda n, ci: f'long frame of {n} bytes of user data with the checksum off by an arbitrary amount, CI {fv(ci)}',
    'long_damaged': lambda n, ci, at, e, x: f'long frame of {n} bytes of user data, one arbitrary byte at {"end-" if e else ""}{at}, {x} arbitrary bytes behind it',
    'long_lengths': lambda n: f'{n} byte long frame, both length bytes, address and data arbitrary, checksum matching',
    'long_cut': lambda n, ci, m: f'long frame of {n} bytes of user data with {m} bytes missing',
    'message': lambda n, ci: f'{n} byte message, CI {fv(ci)}, rest arbitrary',
    'message_long': lambda ci, n: f'message with CI {fv(ci)}, a fixed long header and {n} arbitrary bytes',
    'message_short': lambda ci, n: f'message with CI {fv(ci)}, a fixed short header and {n} arbitrary bytes',
    'header_short': lambda n: f'every short header in {n} bytes', 'header_long': lambda n: f'every long header in {n} bytes (decimal identification)',
    'manufacturer': lambda: 'every 16 bit manufacturer code', 'select': lambda n: f'every application selection in {n} bytes',
    'app_error': lambda n, c: f'every application error of {n} bytes, code {fv(c)}',
    'frame': lambda n: f'every record list of {n} bytes', 'frame_slots': lambda n, k: f'every sequence of {n} of: empty record, one byte record, filler, two fillers, either end marker; then {k} arbitrary bytes',
    'frame_long': lambda n, d, f, m, k: f'{n} records with DIF {fv(d)} and arbitrary data, {f} fillers after each, marker {fv(m)}, {k} arbitrary bytes',
    'template': lambda t, w, a, b: f'realistic frame {t}, every {w} neighbouring bytes in [{a},{b}) arbitrary, checksum matching',
    'layout': lambda k, n, m: f'{SOURCE(k, n)} with {["all values", "the values before one arbitrary byte", "the values before the point where the user data is cut (every point)"][m]} free among those the fields can hold, checksum matching',
    'record_long': lambda d, k, v, m, f, n: f'records with data field {d}, {k} arbitrary DIFEs, VIF {fv(v)}, {m} VIFEs, the last {f} arbitrary, {n} arbitrary bytes',
    'history_count': lambda n, k: f'{n} times the same small input (number {k}), then each kind of small input',
    'history_all': lambda n, k, z: f'{n} times all recorded frames, messages of every CI, application errors, selections, records of every VIF, text and unit; then {HISTORY[k] if k < 256 else "each kind of small input"}',
    'recorded': lambda k: f'recorded frame {k} as it is',
    'history_layout': lambda k, n, l, z: f'{SOURCE(k, n)}, then {SOURCE(l, z)}, then the first again, all values free among those the fields can hold',
    'header_layout': lambda k, n, w, f, ci=0: f'{SOURCE(k, n)}{f" as CI {ci:02X}h" if ci else ""} with any valid header ({PARTS(w)} arbitrary){", all values free" if f else ""}',
    'header_payload': lambda ci, n, w: f'message with CI {fv(ci)}, {f"any long header ({PARTS(w)} arbitrary)" if w else "any short header"} and {n} arbitrary bytes',
    'record_pairs': lambda d, n, t, d2=0, e=0, t2=0: f'{n} records with data field {d:X}h{f" (the second {d2:X}h)" if d2 else ""} and the same quantity, every one of the {["primary", "FBh", "FDh"][t]} table{"".join(x for b, x in ((1, f", the last one of every other quantity{TABLE[t2]}"), (8, ", arbitrary function and storage bit"), (2, ", two arbitrary DIFEs each"), (4, ", two arbitrary VIFEs each")) if e & b)}, all values arbitrary (BCD: only the first negative)',
    'one_fault_telegram': lambda f, k, n: f'{SOURCE(k, n)}, all values free, with exactly one fault ({["second length","marker","control","checksum","tail","any one byte of address and data"][f]})',
    'control_telegram': lambda k, n: f'{SOURCE(k, n)}, all values free, control and address arbitrary',
    'control_message': lambda n, ci: f'intact frame with arbitrary control and address, CI {fv(ci)} and {n} arbitrary bytes',
    'text_classes': lambda n, k: f'{n} byte text, every character free within a class of its own (ASCII and upper half mixed, pattern {k})',
    'hex_list': lambda n, k: f'list of {n} numbers, every digit free (decimal, upper, lower case in pattern {k})',
    'one_fault': lambda k, n: f'long frame of {n} bytes of user data with exactly one fault ({["second length","marker","control","checksum","tail","length below two"][k]})',
    'one_fault_short': lambda k: f'short frame with exactly one fault ({["control","checksum","tail"][k]})',
    'no_panic': lambda n, e: f'every {n} byte input to {["the frame","the message","the record list","the record","the long header","the application error","the application selection"][e]} decoder',
    'int_signed': lambda n, l: f'{n} byte signed integer in {l} bytes', 'int_unsigned': lambda n, l: f'{n} byte unsigned integer in {l} bytes', 'real': lambda l: f'real in {l} bytes',
    'bcd': lambda n, l: f'{n} byte BCD in {l} bytes', 'bcd_text': lambda n, l: f'{n} byte undecodable BCD in {l} bytes',
    'latin1': lambda n, l, a, b: f'{n} byte text in {l} bytes, bytes {a}..{b} arbitrary, the others "A"',
    'ascii': lambda n, l: f'length prefixed ASCII text of {n} bytes in {l}', 'dib': lambda l: f'every data information block in {l} bytes', 'vib': lambda l: f'every value information block in {l} bytes',
    'record': lambda l: f'every record in {l} bytes', 'record_shape': lambda d, v, e, n: f'records with DIF {fv(d)}, VIF {fv(v)}, {fv(e)} VIFE and {n} arbitrary bytes',
    'record_cut': lambda d, v, e, n: f'all prefixes of records with DIF {fv(d)}, VIF {fv(v)}, {fv(e)} VIFE and {n} arbitrary bytes',
    'value_cut': lambda k: f'all prefixes of {["date F","date G","date I","time J","DST K","real","long header","short header"][k]}',
    'lvar': lambda l, n, a, b, f, v, e: f'variable length value {fv(l)}, {n} bytes behind it, bytes {a}..{b} of them arbitrary, the others {f:02X}h, VIF {fv(v)}, {fv(e)} VIFE',
    'hex_file': lambda n, k, c, *w: f'every file of {n} bytes named {["vh-file.hex", "vh-file.bin", "vh-file.HEX", ".hex", "vh-filehex", "vh.hex.bin"][k]}' + ['', ', ASCII', ', of hexadecimal digits, spaces and line ends', f', a list of numbers with bytes {w and w[0]}..{w and w[1]} arbitrary'][c],
    'error_convert': lambda n, k, p=0: f'{f"sequence {p}" if p else "every sequence"} of {n} contexts of four kinds, converted from {["the parser library", "this library"][k]}',
    'error_text': lambda n, k, p=0: f'{["an empty error", "an error from the input", "an error with a cause"][k]} with {f"sequence {p}" if p else "every sequence"} of {n} contexts of eight kinds',
    'stream_kind': lambda k, s: f'{FRAMES(k)} read through {["&[u8]", "&BStr", "LocatingSlice<&[u8]>", "LocatingSlice<&Bytes>", "Stateful", "a completed Partial"][s]}',
    'stream_partial': lambda k, m: f'every proper prefix of every acceptable {FRAMES(k)} as a partial input',
    'sequence': lambda n, k: f'{n} acknowledgements or short frames with arbitrary content in one input, then {["nothing", "a long frame"][k] if k < 2 else f"{k} arbitrary bytes"}',
    'history_mixed': lambda k, n, l, z: f'{HISTORY[k]} ({n} bytes where free), then {HISTORY[l]} ({z}); the errors of four damaged frames before and after',
    'history': lambda k, n, z: f'two inputs ({HISTORY[k]}, size {z}) decoded one after the other, after {n} telegrams of three layouts and as many damaged ones',
    'date_f': lambda n: f'every type F value in {n} bytes', 'date_g': lambda n: f'every type G value in {n} bytes', 'date_i': lambda n: f'every type I value in {n} bytes',
    'date_j': lambda n: f'every type J value in {n} bytes', 'date_k': lambda n: f'every type K value in {n} bytes',
}

H_LONG = [0x53, 0x55, 0x5B, 0x5F, 0x60, 0x64, 0x68, 0x6B, 0x6C, 0x6D, 0x6F, 0x72, 0x73, 0x75, 0x7C, 0x80, 0x82, 0x84, 0x85, 0x87, 0x8B, 0x9F, 0xC0, 0xC2, 0xC3, 0xC5]
H_SHORT = [0x5A, 0x61, 0x65, 0x67, 0x6A, 0x6E, 0x74, 0x7A, 0x7B, 0x7D, 0x88, 0x8A, 0x9E, 0xC1, 0xC4]
VERBATIM = list(range(0, 0x20)) + [0x51, 0x52, 0x71, 0x90] + list(range(0xA0, 0xB8))
V_LONG = [0x5B, 0x5F, 0x60, 0x6C, 0x6D, 0x75, 0x7C, 0x9F, 0xC0, 0xC2, 0xC3, 0xC5]
V_SHORT = [0x5A, 0x61, 0x74, 0x7D, 0x9E, 0xC1, 0xC4]
B = dict(big=True)
X = dict(thorough=True)
BX = dict(big=True, thorough=True, secs=1500)

RECORDED = [k for k in range(98) if k != 91]
LONGEST = [7, 13, 19, 20, 24, 25, 30, 36, 38, 46, 47, 51, 52, 53, 58]
shapes = lambda a, b: [(k, (30, 60, 90, 120, 160, 200, 246)[k % 7]) for k in range(a, b)]
L = ['long']
FIELDS = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14]
def C01():
    r = [T('no_panic', l, e, covers=['err']) for e, ls in ((0, (1, 2, 5, 6, 8, 9, 10)), (1, (1, 2, 3)), (2, (1, 2)), (3, (2, 3)), (5, (1, 2, 3)), (6, (1, 4, 11))) for l in ls if not (e in (5, 6) and l == 1)]
    r += [T('no_panic', l, e, covers=['err', 'ok'], **B) for e, l in ((0, 11), (1, 4), (1, 5), (2, 4), (3, 4), (3, 5), (4, 12), (5, 4))]
    r += [T('template', t, 1, 0, 300, covers=['long', 'long rejected'], **B) for t in (0, 1, 2)]
    r += [T('lvar', FREE, n, 0, 0, 0x41, v, NONE, covers=['ok', 'err']) for n in (0, 9, 63, 64, 191, 200) for v in (0x13, 0x6D, 0x78)]
    r += [T('lvar', FREE, 64, 0, 0, 0x41, 0xFD, e, covers=['ok', 'err']) for e in (0x72, 0x17)]
    r += [T('dib', l) for l in (0, 1, 10, 11, 12, 13, 14)] + [T('vib', l) for l in (0, 1, 2, 5)]
    r += [T('packet', 0), T('frame', 0), T('message', 0, FREE), T('app_error', 0, FREE), T('select', 0), T('header_long', 0), T('header_short', 0), T('record', 0)]
    r += [T('long_lengths', n) for n in (2, 4, 5, 6, 7, 8, 20)]
    r += [T('vib', 11, **B), T('date_f', 4), T('date_g', 2), T('date_i', 6), T('date_j', 3), T('date_k', 4)]
    r += [T('no_panic', l, e, **BX) for e, l in ((0, 12), (1, 6), (2, 5), (2, 6), (3, 6), (3, 7), (3, 8), (5, 6), (5, 7))]
    r += [T('template', 3, 1, 0, 300, **BX)] + [T('template', t, 2, 0, 300, **BX) for t in (0, 1, 2)]
    r += [T('recorded', k) for k in RECORDED] + [T('layout', 10000 + k, 0, 1) for k in (9, 26, 30, 33, 62)]
    r += [T('layout', 10000 + k, 0, 1, **BX) for k in RECORDED if k < 91]
    r += [T('frame_long', 400, 1, 1, 0x0F, 100, covers=['ok'], steps=10 ** 9), T('frame_long', 0, 0, 0, 0x1F, 500, covers=['ok']), T('frame_long', 2, 1, 3000, FREE, 0, covers=['ok'])]
    r += [T('record_pairs', d, n, t, 0, e, covers=['list', 'ok']) for d in FIELDS for n, e in ((2, 14), (3, 0)) for t in (0, 1, 2)]
    return r
def C02():
    lens = [1, 2, 3, 4, 7, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129, 130, 200, 250, 251, 252, 253]
    r = [T('packet', n, covers=['long rejected']) for n in range(1, 9)] + [T('packet', 9, covers=['long', 'long rejected'], **B), T('packet', 10, covers=['long', 'long rejected'], **B)]
    r += [T('long_ok', 0, FREE, covers=['long rejected']), T('long_ok', 1, FREE, covers=['long', 'long rejected']), T('long_ok', 2, FREE, covers=['long', 'long rejected'])]
    r += [T('long_ok', n, 0xA0, covers=['long', 'long rejected']) for n in lens]
    r += [T('long_ok', n, 0x51, covers=['long']) for n in (5, 253)]
    r += [T('long_sum', n, 0xA0, covers=['long', 'long rejected']) for n in lens] + [T('long_sum', 1, FREE), T('long_sum', 3, 0x78, covers=['long', 'long rejected'])]
    r += [T('long_damaged', 6, 0xA0, o, 0, 0) for o in range(0, 13)] + [T('long_damaged', 6, 0xA0, o, 1, 0) for o in (0, 1)]
    r += [T('long_damaged', n, 0xA0, o, e, x, covers=['long rejected']) for n in (1, 6, 253) for o, e, x in ((1, 0, 0), (2, 0, 0), (3, 0, 0), (0, 1, 0), (1, 1, 0), (0, 1, 1), (0, 1, 2), (1, 1, 1), (1, 0, 1), (1, 0, 3))]
    r += [T('long_damaged', 253, 0xA0, o, 0, 0, covers=['long', 'long rejected']) for o in (7, 100, 200, 258)]
    r += [T('long_lengths', n) for n in (2, 3, 4, 5, 6, 7, 8)] + [T('long_lengths', n, covers=['long', 'long rejected']) for n in (9, 10, 12, 16, 40, 130, 134, 135)]
    r += [T('long_lengths', n, covers=['long', 'long rejected'], **B) for n in (255, 258, 259)]
    r += [T('long_lengths', n, covers=['long rejected'], **B) for n in (262, 265)]
    r += [T('long_cut', n, 0xA0, m) for n in (1, 6, 20, 253) for m in range(1, 8)]
    r += [T('packet', 11, covers=['long'], **BX), T('long_ok', 3, FREE, **BX), T('long_ok', 4, FREE, **BX)]
    r += [T('long_ok', n, 0xA0, covers=['long'], samples=0) for n in range(1, 254) if n not in lens] + [T('long_sum', n, 0xA0, samples=0) for n in range(1, 254) if n not in lens]
    r += [T('long_lengths', n, **X) for n in list(range(17, 130, 6)) + list(range(136, 262, 7))]
    r += [T('long_damaged', 20, 0xA0, o, 0, 0, **X) for o in range(28)]
    r += [T('recorded', k) for k in RECORDED]
    r += [T('one_fault_telegram', f, k, n, covers=['rejected'], samples=0) for f in (3, 5) for k, n in [(k, 0) for k in range(4)] + [(10000 + k, 0) for k in RECORDED] + shapes(4, 30)]
    return r
def C03():
    r = [T('short_frame', n, covers=['short rejected']) for n in range(0, 4)] + [T('short_frame', n, covers=['short', 'short rejected']) for n in (4, 5, 6, 8, 20, 260)]
    r += [T('packet', n, covers=['ack', 'other']) for n in range(1, 9)]
    r += [T('packet', 9, **BX)] + [T('short_frame', n, **X) for n in range(7, 60)]
    return r
def C04():
    r = [T('short_frame', 4, covers=['short', 'short rejected']), T('short_frame', 7, covers=['short', 'short rejected'])]
    r += [T('long_ok', n, 0xA0, covers=['long', 'long rejected']) for n in (1, 2, 5, 40, 253)] + [T('long_ok', 1, FREE, covers=['long']), T('long_ok', 1, 0xBD, covers=['long'])]
    r += [T('one_fault', 2, 3, covers=['rejected']), T('one_fault_short', 0, covers=['rejected'])]
    r += [T('long_ok', n, 0x51, **X) for n in range(1, 253, 9)] + [T('packet', 9, **BX)]
    r += [T('control_telegram', k, n, covers=['long', 'long rejected']) for k, n in [(k, 0) for k in range(4)] + [(10000 + k, 0) for k in RECORDED if k % 5 == 0 and k < 70] + shapes(4, 20)]
    r += [T('control_message', n, FREE, covers=['long', 'long rejected']) for n in (0, 1, 2)] + [T('control_message', 20, ci, covers=['long', 'long rejected']) for ci in VERBATIM]
    return r
def C05():
    r = [T('message', 0, FREE), T('message', 1, FREE, covers=['ok', 'err']), T('message', 2, FREE, covers=['ok', 'err']), T('message', 3, FREE, covers=['ok', 'err']), T('message', 4, FREE, covers=['ok', 'err'], **B)]
    r += [T('message_long', ci, n) for ci in H_LONG for n in (0, 2)] + [T('message_short', ci, n) for ci in H_SHORT for n in (0, 2)]
    r += [T('message', 40, ci, covers=['ok'], samples=0) for ci in VERBATIM] + [T('message', 252, ci, covers=['ok'], samples=0) for ci in (0x00, 0x51, 0x52, 0x71, 0x90, 0xA0, 0xB7)]
    r += [T('message_long', ci, n, covers=['ok']) for ci in V_LONG for n in (33,)] + [T('message_short', ci, n, covers=['ok']) for ci in V_SHORT for n in (33,)]
    r += [T('message_long', ci, 239, covers=['ok']) for ci in (0x5B, 0x6C, 0x9F, 0xC5)] + [T('message_short', ci, 247, covers=['ok']) for ci in (0x5A, 0x74, 0xC4)]
    r += [T('message', 12, ci) for ci in H_LONG] + [T('message', 4, ci) for ci in H_SHORT]
    r += [T('long_ok', 1, FREE, covers=['long']), T('long_ok', 3, FREE, covers=['long'], **B)]
    r += [T('message', 5, FREE, **BX), T('message', 6, FREE, **BX), T('message_long', 0x72, 4, **BX), T('message_short', 0x7A, 5, **BX)]
    r += [T('message', n, ci, **X) for ci in VERBATIM for n in (5, 9, 128, 252)]
    r += [T('message', n, ci, samples=0) for ci in (0x51, 0x52, 0x71, 0x90, 0x00, 0xA0) for n in range(4, 253)] + [T('message_long', ci, n, samples=0) for ci in (0x5B, 0x75, 0x6C, 0x60, 0x5F, 0xC0) for n in range(1, 240)]
    r += [T('message_short', ci, n, samples=0) for ci in (0x5A, 0x74, 0x61, 0x9E, 0xC1) for n in range(1, 248)]
    r += [T('message', n + 1, ci, samples=0) for ci in VERBATIM for n in (7, 8, 15, 16, 32, 48, 64, 128)] + [T('message_long', ci, n, samples=0) for ci in V_LONG for n in (8, 16, 32, 64, 128)] + [T('message_short', ci, n, samples=0) for ci in V_SHORT for n in (8, 16, 32, 64, 128)]
    r += [T('message', n, VERBATIM[n % len(VERBATIM)], samples=0) for n in range(4, 253)] + [T('message_long', V_LONG[n % len(V_LONG)], n, samples=0) for n in range(1, 239, 2)] + [T('message_short', V_SHORT[n % len(V_SHORT)], n, samples=0) for n in range(1, 247, 2)]
    r += [T('header_payload', ci, n, w, covers=['ok']) for ci in V_LONG for n in (2, 16) for w in (3, 13, 9)] + [T('header_payload', ci, n, 0, covers=['ok']) for ci in V_SHORT for n in (2, 16)]
    r += [T('header_payload', 0x5B, 16, 15, covers=['ok'], **B)] + [T('header_payload', ci, 33, 15, covers=['ok'], **BX) for ci in V_LONG]
    return r
def C06():
    r = [T('header_short', n) for n in (0, 1, 2, 3)] + [T('header_short', n, covers=['ok', 'err']) for n in (4, 5, 9)] + [T('header_long', n) for n in (0, 4, 8, 11)]
    r += [T('header_long', 12, covers=['ok', 'err'], **B), T('header_long', 14, covers=['ok', 'err'], **BX)]
    r += [T('message', 5, ci) for ci in H_SHORT if ci not in (0x7A,)] + [T('long_sum', 6, 0x5A), T('long_ok', 6, 0x74)]
    r += [T('long_sum', 17, 0x6C, covers=['long'], **BX), T('message', 14, 0x9F, covers=['ok'], **BX), T('message', 14, 0x72, covers=['ok'], **BX)]
    return r
def C07():
    r = [T('manufacturer', covers=['ok']), T('header_long', 12, covers=['ok', 'err'], **B)]
    r += [T('template', 0, 1, 1, 13, covers=['long', 'long rejected']), T('template', 0, 2, 1, 13, covers=['long', 'long rejected'], **B)]
    r += [T('header_long', 13, **BX), T('message', 13, 0x5B, **BX), T('template', 0, 3, 1, 13, **BX)]
    return r
def C08():
    r = [T('dib', n) for n in (0,)] + [T('dib', n, covers=['ok', 'err']) for n in (1, 2, 3, 5, 8, 10)] + [T('dib', 11, covers=['ok', 'err', 'obis', 'ten DIFEs']), T('dib', 12, covers=['ok', 'err', 'ten DIFEs']), T('dib', 13, covers=['err'])]
    r += [T('record', 3, covers=['ok', 'err']), T('template', 2, 1, 0, 24, covers=['long', 'long rejected'])]
    r += [T('dib', n, **X) for n in range(1, 20)] + [T('template', 2, 1, 0, 300, **BX), T('template', 2, 2, 0, 300, **BX), T('record', 5, **BX)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(804, 824)] + [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(824, 899)]
    r += [T('record_long', 1, k, 0x13, m, 1, 2, covers=['ok']) for k in range(0, 11) for m in (0, 1)] + [T('record_long', d, 4, 0x6D, 0, 0, 6) for d in (2, 3, 4, 6, 13)] + [T('record_long', 1, 11, 0x13, 0, 0, 1)]
    return r
def C09():
    r = [T('vib', 1, covers=['ok', 'err']), T('vib', 2, covers=['ok', 'err', 'further VIFEs']), T('vib', 3, covers=['ok', 'further VIFEs', 'plain text'])]
    r += [T('record_shape', d, FREE, NONE, 8, covers=['ok']) for d in (0x01, 0x04, 0x00)] + [T('record_shape', 0x02, v, FREE, 2, covers=['ok']) for v in (0xFB, 0xFD, 0xEF, 0xFF, 0xFE, 0x93)]
    r += [T('vib', 4, **BX), T('vib', 6, **BX), T('record', 4, **BX), T('record', 5, **BX)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(904, 924)] + [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(924, 999)]
    r += [T('record_long', 1, 2, FREE, 1, 1, 8, covers=['ok'], **B), T('record_long', 4, 0, FREE, 2, 1, 8, covers=['ok'], **B)] + [T('record_long', 1, k, v, 1, 1, 2, covers=['ok']) for k in (0, 2, 9) for v in (0x7D, 0x7B)]
    r += [T('record_long', d, 3, FREE, 1, 1, 8, **BX) for d in (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14)] + [T('record_long', 1, 1, FREE, 2, 2, 2, **BX)]
    return r
def C10():
    r = [T('vib', n, covers=['ok', 'err'] if n else []) for n in (0, 1, 2, 3, 4, 5)] + [T('vib', n, covers=['ok', 'err', 'further VIFEs'], **B) for n in (7, 11, 12)]
    r += [T('template', 1, 1, 5, 13, covers=['long'], **B), T('template', 2, 1, 0, 12, covers=['long'])]
    r += [T('ascii', n, l) for n, l in ((0, 0), (0, 2), (1, 1), (2, 5), (3, 3), (5, 5), (5, 4), (8, 9), (40, 40), (100, 100), (100, 99))]
    r += [T('vib', 13, **BX), T('vib', 14, **BX), T('ascii', 255, 255, **BX)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(1004, 1024)] + [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(1024, 1099)]
    r += [T('record_long', 1, k, v, m, f, 2, covers=['ok']) for k in (0, 1, 10) for v in (0x13, 0x7D, 0x6C) for m, f in ((1, 1), (2, 2), (5, 1), (9, 1))] + [T('record_long', 1, 1, 0x13, m, 1, 1) for m in (10, 11, 12)]
    r += [T('ascii', n, n + n % 3) for n in range(1, 256, 3)] + [T('ascii', n, n - 1, covers=['err']) for n in (2, 9, 77, 254)] + [T('ascii', 255, 255)]
    return r
def C11():
    r = [T(h, n, n, covers=['ok']) for h in ('int_signed', 'int_unsigned') for n in range(0, 9)] + [T(h, n, n - 1, covers=['err']) for h in ('int_signed', 'int_unsigned') for n in range(1, 9)] + [T(h, n, n + 3, covers=['ok']) for h in ('int_signed', 'int_unsigned') for n in (0, 1, 3, 8)]
    r += [T('real', n, covers=['ok'] if n >= 4 else ['err']) for n in (0, 3, 4, 6)]
    r += [T('record_shape', d, FREE, NONE, 8, covers=['ok']) for d in (1, 2, 3, 4, 5, 6, 7)]
    r += [T('record_shape', d, v, FREE, 8, covers=['ok']) for d in (1, 4, 7) for v in (0xFD, 0xFB)]
    r += [T('record_shape', d, v, FREE, 9, **BX) for d in range(1, 8) for v in (0xFD, 0xFB, 0x93)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(1104, 1124)] + [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(1124, 1199)]
    return r
def C12():
    r = [T('bcd', n, n, covers=['ok', 'err']) for n in range(1, 10)] + [T('bcd', n, n + 2, covers=['ok', 'err']) for n in (1, 4, 6)] + [T('bcd', n, n - 1) for n in range(1, 10)]
    r += [T('bcd', 0, 0, covers=['ok']), T('bcd', 0, 2, covers=['ok'])]
    r += [T('bcd_text', n, l) for n in (0, 1, 2, 3, 4, 6) for l in (n, n + 1)] + [T('bcd_text', n, n - 1, covers=['err']) for n in (1, 2, 4, 6)]
    r += [T('record_shape', d, 0x13, NONE, n, covers=['ok']) for d, n in ((9, 1), (10, 2), (11, 3), (12, 4), (14, 6), (0x4C, 5))]
    r += [T('record_shape', d, FREE, NONE, n, covers=['ok'], **BX) for d, n in ((9, 1), (10, 2), (11, 3), (12, 4), (14, 6))]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(1204, 1224)] + [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(1224, 1299)]
    return r
def C13():
    r = [T('date_f', n, covers=['ok', 'err']) for n in (4, 6)] + [T('date_g', n, covers=['ok', 'err']) for n in (2, 5)] + [T('date_i', n, covers=['ok', 'err']) for n in (6, 7)]
    r += [T('date_f', n) for n in (0, 1, 2, 3)] + [T('date_g', n) for n in (0, 1)] + [T('date_i', n) for n in range(0, 6)]
    r += [T('record_shape', d, 0x6D, NONE, n, covers=['ok', 'err']) for d, n in ((4, 4), (6, 6), (0x44, 5))] + [T('record_shape', 2, 0x6C, NONE, 2, covers=['ok', 'err'])]
    r += [T('record_shape', 4, 0xED, FREE, 4, **BX), T('record_shape', 2, 0xEC, FREE, 2, **BX), T('record_shape', 6, 0xED, FREE, 6, **BX)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(1304, 1324)] + [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(1324, 1399)]
    r += [T('record_long', d, k, v, m, m, d, covers=['ok']) for d, v in ((4, 0x6D), (6, 0x6D), (2, 0x6C)) for k, m in ((1, 0), (4, 1), (10, 0))]
    return r
def C14():
    r = [T('date_j', n, covers=['ok', 'err']) for n in (3, 5)] + [T('date_k', n, covers=['ok', 'err']) for n in (4, 6)] + [T('date_j', n) for n in (0, 1, 2)] + [T('date_k', n) for n in (0, 1, 2, 3)]
    r += [T('record_shape', 3, 0x6D, NONE, 3, covers=['ok', 'err']), T('record_shape', 4, 0xFD, 0x72, 4, covers=['ok', 'err'])]
    r += [T('record_shape', 3, 0xED, FREE, 3, **BX), T('record_shape', 4, 0xFD, 0xF2, 5, **BX)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(1404, 1444)] + [T('record_long', 3, k, 0x6D, 0, 0, 3, covers=['ok']) for k in (1, 5, 10)] + [T('record_long', 4, 1, 0x7D, 2, 2, 4)]
    r += [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(1444, 1499)]
    return r
def C15():
    r = [T('record_shape', FREE, v, NONE, 4, covers=['ok', 'err'], **B) for v in (0x6D, 0x6C)] + [T('record_shape', d, v, NONE, n, covers=['ok']) for v in (0x6D, 0x6C) for d, n in ((6, 6), (7, 8), (14, 6), (0x46, 7), (0x0D, 3))]
    r += [T('record_shape', FREE, 0xFD, 0x72, 5, covers=['ok', 'err'], **B)]
    r += [T('record_shape', d, FREE, NONE, 8, covers=['ok']) for d in (0, 1, 2, 3, 4, 5, 6, 7)] + [T('record_shape', d, FREE, NONE, n, covers=['ok']) for d, n in ((9, 1), (10, 2), (11, 3))]
    r += [T('record_shape', d, FREE, NONE, n, covers=['ok'], **B) for d, n in ((12, 4), (14, 6))]
    r += [T('record', n) for n in (0, 1, 2)] + [T('record', 3, covers=['ok', 'err']), T('record', 4, covers=['ok', 'err'], **B)]
    r += [T('record_shape', d, v, FREE, 4, covers=['ok']) for d in (1, 2, 4) for v in (0xFD, 0xFB)]
    r += [T('record', 5, **BX), T('record', 6, **BX), T('record_shape', FREE, FREE, NONE, 4, **BX), T('record_shape', FREE, 0xFD, FREE, 4, **BX), T('record_shape', FREE, 0x6D, NONE, 5, **BX)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(1504, 1524)] + [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(1524, 1599)]
    return r
def C16():
    r = [T('lvar', FREE, n, 0, 0, f, 0x13, NONE, covers=['ok', 'err']) for n in (0, 1, 9, 15, 16, 31, 32, 47, 48, 63, 64, 65, 190, 191, 200) for f in (0x11, 0x41)]
    r += [T('lvar', l, l - 0xC0, 0, l - 0xC0, 0, 0x13, NONE, covers=['ok', 'err']) for l in range(0xC1, 0xCA)] + [T('lvar', l, l - 0xD0, 0, l - 0xD0, 0, 0x13, NONE, covers=['ok', 'err']) for l in range(0xD1, 0xDA)]
    r += [T('lvar', l, l - 0xE0, 0, l - 0xE0, 0, v, NONE, covers=['ok']) for l in range(0xE1, 0xF0) for v in (0x13, 0x78)] + [T('lvar', l, n, 0, n, 0, 0x13, NONE, covers=['ok']) for l, n in ((0xF0, 16), (0xF1, 20), (0xF2, 24), (0xF3, 28), (0xF4, 32), (0xF5, 48), (0xF6, 64))]
    r += [T('lvar', l, n - 1, 0, n - 1, 0, 0x13, NONE, covers=['err']) for l, n in ((0xC4, 4), (0xD4, 4), (0xE4, 4), (0xE8, 8), (0xE9, 9), (0xF0, 16), (0xF4, 32), (0xF5, 48), (0xF6, 64), (0x05, 5), (0xBF, 191))if l > 0xBF]
    r += [T('lvar', l, l, a, a + w, 0x41, 0x13, NONE, covers=['ok']) for l, a, w in ((1, 0, 1), (2, 0, 2), (3, 0, 3), (4, 0, 3), (20, 0, 2), (20, 18, 2), (64, 31, 1), (127, 126, 1), (128, 0, 1), (128, 127, 1), (190, 100, 1), (191, 0, 2), (191, 189, 2), (191, 95, 1))]
    r += [T('lvar', FREE, 64, 0, 0, 0x11, v, e, covers=['ok', 'err']) for v, e in ((0x6D, NONE), (0x6C, NONE), (0xFD, 0x72), (0xFD, 0x17), (0x78, NONE), (0x79, NONE))]
    r += [T('record_shape', 0x0D, 0x13, NONE, 3, covers=['ok', 'err']), T('record_shape', 0x0D, 0x6D, NONE, 3, covers=['ok', 'err'])]
    r += [T('record_shape', 0x0D, FREE, NONE, 4, covers=['ok', 'err'], **B)]
    r += [T('record_shape', 0x0D, 0x13, NONE, n, **BX) for n in (5, 6, 7)] + [T('record_shape', 0x0D, 0xFD, FREE, 4, **BX)]
    r += [T('lvar', l, l, l - 2, l, 0x41, 0x13, NONE, **X) for l in range(3, 0xC0, 3)]
    r += [T('lvar', l, l - 0xC0, 0, l - 0xC0, 0, v, NONE, **X) for l in range(0xC1, 0xCA) for v in (0x78, 0x6D)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(1604, 1624)] + [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(1624, 1699)]
    r += [T('record_long', 13, k, 0x13, m, m, 4, covers=['ok', 'err']) for k, m in ((1, 0), (10, 0))]
    return r
def C17():
    r = [T('latin1', n, n, 0, n, covers=['ok']) for n in (0, 1, 2, 3, 4)] + [T('latin1', n, n - 1, 0, 0, covers=['err']) for n in (1, 5, 191)] + [T('latin1', 2, 5, 0, 5, covers=['ok'])]
    r += [T('latin1', 5, 5, 0, 5, covers=['ok'], **B), T('latin1', 6, 6, 0, 6, covers=['ok'], **B)]
    r += [T('latin1', 8, 8, a, a + 2, covers=['ok']) for a in (0, 3, 6)]
    r += [T('latin1', n, n, a, a + 1, covers=['ok']) for n in (8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 190, 191, 254, 255) for a in sorted({0, 1, n // 3, n // 2, n - 1})]
    r += [T('lvar', l, l, 0, l, 0, 0x13, NONE, covers=['ok']) for l in (1, 2, 3, 4)] + [T('lvar', 191, 191, a, a + w, 0x20, 0xFD, 0x0E, covers=['ok']) for a, w in ((0, 2), (80, 1), (189, 2))]
    r += [T('ascii', n, l) for n, l in ((0, 0), (0, 2), (1, 1), (2, 5), (3, 3), (5, 5), (5, 4), (8, 9), (40, 40), (100, 100), (100, 99))]
    r += [T('latin1', 7, 7, 0, 7, **BX), T('latin1', 8, 8, 0, 8, **BX)] + [T('latin1', n, n, n - 3, n, **X) for n in range(5, 200, 5)]
    r += [T('text_classes', n, k, covers=['ok']) for n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 190, 191, 255) for k in range(5)]
    r += [T('text_classes', n, k, covers=['ok'], **X) for n in range(1, 256) for k in range(8)]
    r += [T('text_classes', n, 2 + n % 5, covers=['ok'], samples=0) for n in range(3, 256)]
    return r
def C18():
    r = [T('frame', n, covers=['ok']) for n in (0, 1, 2)] + [T('frame', 3, covers=['ok', 'err'], **B), T('frame', 4, covers=['ok', 'err'], **B)]
    r += [T('frame_slots', n, k, covers=['ok']) for n, k in ((1, 0), (1, 2), (2, 1), (3, 0), (3, 1), (4, 0))] + [T('frame_slots', 5, 1, covers=['ok', 'err'], **B)]
    r += [T('frame_long', *p, covers=['ok']) for p in ((1, 1, 0, 0x0F, 0), (1, 1, 0, 0x1F, 0), (10, 1, 0, FREE, 0), (40, 0, 1, 0x0F, 3), (20, 2, 1, 0x1F, 2), (80, 0, 0, FREE, 0), (120, 0, 0, 0x0F, 10), (30, 4, 0, 0x1F, 40), (1, 7, 200, 0x0F, 30), (0, 0, 0, 0x0F, 240), (0, 0, 0, 0x1F, 240), (17, 6, 3, 0x1F, 5))]
    r += [T('frame_long', 2, 12, 2, 0x0F, 4, covers=['ok'])]
    r += [T('message_long', 0x72, 3, covers=['ok', 'err'], **B), T('message', 3, 0x78, covers=['ok', 'err']), T('message_short', 0x7A, 3, covers=['ok', 'err'])]
    r += [T('frame', 5, **BX), T('frame_slots', 6, 1, **BX), T('frame_slots', 6, 2, **BX), T('message_long', 0x72, 4, **BX)]
    r += [T('frame_long', n, d, f, m, 5, **X) for n in (1, 5, 12, 20) for d in (1, 2, 3, 4) for f in (0, 1) for m in (0x0F, 0x1F)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(2000, 2080)] + [T('layout', k, n, 2, covers=L) for k, n in shapes(2100, 2108)]
    r += [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(2200, 2600)] + [T('layout', k, n, 2, covers=L, **X) for k, n in shapes(2600, 2700)]
    r += [T('frame_long', 1, 1, 0, 0x0F if k % 2 else 0x1F, k, covers=['ok'], samples=0) for k in range(1, 240, 3)] + [T('frame_long', k, 1, 0, FREE, 0, covers=['ok'], samples=0) for k in range(2, 83, 3)]
    r += [T('frame_long', 400, 1, 1, 0x0F, 100, covers=['ok'], steps=10 ** 9)]
    r += [T('record_pairs', d, 3, 0, 0, e, covers=['list', 'ok']) for d in FIELDS for e in (0, 10)] + [T('record_pairs', d, 2, 0, d2, 8, covers=['list', 'ok']) for d in FIELDS for d2 in FIELDS]
    return r
def C19():
    r = [T('select', 0, covers=['empty']), T('select', 1, covers=['ok'])] + [T('select', n, covers=['ok', 'err']) for n in (2, 3, 4, 5)]
    r += [T('select', n, covers=['ok', 'err'], **B) for n in (7, 10, 11)]
    r += [T('message', n, ci, covers=['ok']) for ci in (0x50, 0x66) for n in (2, 3, 4)] + [T('message_long', ci, n, covers=['ok']) for ci in (0x53, 0x68) for n in (1, 3)] + [T('message_short', 0x67, n, covers=['ok']) for n in (1, 3)]
    r += [T('message', 1, 0x50, covers=['ok']), T('message', 1, 0x66), T('message_long', 0x53, 0, covers=['ok']), T('message_long', 0x68, 0), T('message_short', 0x67, 0)]
    r += [T('message', n, 0x54, covers=['ok']) for n in (1, 4)] + [T('message_long', 0x55, 2, covers=['ok'])]
    r += [T('select', n, **BX) for n in (6, 8, 9, 12, 20)] + [T('message', n, 0x50, **BX) for n in (8, 12)]
    r += [T('header_payload', ci, n, w, covers=['ok']) for ci in (0x53, 0x68) for n in (1, 2) for w in (3, 13)] + [T('header_payload', 0x67, n, 0, covers=['ok']) for n in (1, 2)] + [T('header_payload', 0x55, 0, w, covers=['ok']) for w in (3, 13)]
    return r
def C20():
    r = [T('app_error', 0, FREE, covers=['ok']), T('app_error', 1, FREE, covers=['ok', 'err']), T('app_error', 2, FREE, covers=['ok', 'err']), T('app_error', 3, FREE, covers=['ok', 'err']), T('app_error', 4, 0xF0, covers=['ok', 'err'], **B)]
    r += [T('app_error', n, c, covers=['ok']) for c in (0xF1, 0xF5, 0xFE, 0xFF) for n in (1, 2, 10, 60)] + [T('app_error', 240, c, covers=['ok']) for c in (0xF1, 0xFF)]
    r += [T('message', n, 0x70, covers=['ok']) for n in (1, 2, 3)] + [T('message_short', 0x6E, n, covers=['ok']) for n in (0, 1, 2)] + [T('message_long', 0x6F, n, covers=['ok']) for n in (0, 1, 2)]
    r += [T('app_error', 5, 0xF0, **BX), T('app_error', 6, 0xF0, **BX), T('message_short', 0x6E, 4, **BX)]
    r += [T('app_error', n, (0xF1, 0xF5, 0xFE, 0xFF, 0xF9)[n % 5], covers=['ok'], samples=0) for n in range(3, 240, 2)]
    r += [T('header_payload', 0x6F, n, w, covers=['ok']) for n in (1, 2) for w in (3, 13)] + [T('header_payload', 0x6E, n, 0, covers=['ok']) for n in (1, 2)]
    return r
def C21():
    r = [T('value_cut', k, covers=['done']) for k in range(8)]
    r += [T('record_cut', d, v, NONE, n, covers=['ok']) for d, v, n in ((1, 0x13, 1), (2, 0x6C, 2), (3, 0x6D, 3), (4, 0x6D, 4), (5, 0x13, 4), (6, 0x6D, 6), (6, 0x13, 6), (7, 0x13, 8), (9, 0x13, 1), (10, 0x13, 2), (12, 0x13, 4), (14, 0x13, 6), (0x0D, 0x13, 3))]
    r += [T('record_cut', FREE, 0xFD, FREE, 2, covers=['ok', 'err'], **B), T('record_cut', 0x84, FREE, FREE, 5, covers=['ok', 'err'], **B), T('record_cut', FREE, 0x6D, NONE, 4, covers=['ok', 'err'], **B), T('record_cut', 6, 0x6D, NONE, 7, covers=['ok', 'err'])]
    r += [T('long_cut', n, ci, m) for n, ci in ((1, 0xA0), (2, 0x50), (6, 0x51), (20, 0xA0), (253, 0xA0), (1, 0xBB)) for m in range(1, n + 6 if n < 21 else 12)]
    r += [T('short_frame', n) for n in (0, 1, 2, 3)]
    r += [T('lvar', l, n - 1, 0, n - 1, 0x11, 0x13, NONE, covers=['err']) for l, n in ((0xC4, 4), (0xC9, 9), (0xD4, 4), (0xE4, 4), (0xE8, 8), (0xE9, 9), (0xEF, 15), (0xF0, 16), (0xF4, 32), (0xF5, 48), (0xF6, 64))]
    r += [T('lvar', FREE, n, 0, 0, 0x41, 0x13, NONE, covers=['err']) for n in (0, 10, 100, 190)]
    r += [T(h, n, n - 1, covers=['err']) for h in ('int_signed', 'int_unsigned', 'bcd', 'bcd_text') for n in (1, 3, 6, 8)]
    r += [T('header_long', n) for n in range(0, 12)] + [T('dib', n) for n in (0, 1, 2, 3)] + [T('vib', n) for n in (0, 1, 2)]
    r += [T('record_cut', FREE, 0x13, NONE, 8, **BX), T('record_cut', FREE, FREE, FREE, 3, **BX), T('record_cut', 0x0D, 0x13, NONE, 5, **BX)]
    r += [T('layout', 10000 + k, 0, 2, covers=['long', 'long rejected']) for k in (0, 9, 12, 26, 30, 33, 54)] + [T('layout', k, n, 2, covers=['long rejected']) for k, n in shapes(3000, 3010)] + [T('layout', k, 0, 2, covers=['long rejected']) for k in range(4)]
    r += [T('layout', 10000 + k, 0, 2, **X) for k in RECORDED if k < 91] + [T('layout', k, n, 2, **X) for k, n in shapes(3100, 3300)]
    return r
def C22():
    r = [T('one_fault', k, n, covers=['rejected']) for k in range(6) for n in (1, 2, 7, 20, 128, 253)] + [T('one_fault_short', k, covers=['rejected']) for k in range(3)]
    r += [T('short_frame', n, covers=['short rejected']) for n in (0, 2, 3, 4)] + [T('packet', n, covers=['long rejected', 'short rejected']) for n in (1, 3, 5, 8)] + [T('packet', 9, covers=['long rejected'], **B)]
    r += [T('long_ok', 1, FREE, covers=['long rejected']), T('long_ok', 2, FREE, covers=['long rejected']), T('long_ok', 3, 0x78, covers=['long rejected'])]
    r += [T('no_panic', l, e, covers=['err']) for e, l in ((0, 5), (0, 9), (1, 3), (3, 3), (5, 3), (6, 4))]
    r += [T('one_fault', k, n, **X) for k in range(6) for n in range(3, 253, 10)] + [T('packet', 10, **BX), T('long_ok', 4, 0x78, **BX)]
    r += [T('one_fault_telegram', f, k, n, covers=['rejected']) for f in range(6) for k, n in [(k, 0) for k in range(4)] + [(10000 + k, 0) for k in RECORDED if k % 4 == 0 and k < 91] + shapes(4, 24)]
    return r
def C23():
    r = [T('template', t, 1, 0, 300, covers=['long', 'long rejected'], **B) for t in (0, 1, 2)] + [T('template', 3, 1, a, a + 24, covers=['long']) for a in (0, 120, 220)]
    r += [T('template', 1, 2, 0, 300, covers=['long', 'long rejected'], **B), T('template', 2, 2, 0, 40, covers=['long', 'long rejected'], **B)]
    r += [T('frame_slots', 4, 0, covers=['ok']), T('frame_long', 2, 12, 0, FREE, 0, covers=['ok'])]
    r += [T('template', 3, 1, 0, 300, **BX), T('template', 0, 2, 0, 300, **BX), T('template', 2, 2, 0, 300, **BX), T('template', 1, 3, 0, 300, **BX), T('template', 0, 3, 0, 60, **BX)]
    r += [T('recorded', k) for k in RECORDED] + [T('layout', 10000 + k, 0, 0) for k in RECORDED if k < 91] + [T('layout', k, 0, 0, covers=L) for k in range(4)]
    r += [T('layout', k, n, 0, covers=L) for k, n in shapes(4, 204)] + [T('layout', k, 0, 1, covers=L, **B) for k in range(4)]
    r += [T('layout', 10000 + k, 0, 1, **B) for k in (4, 9, 12, 26, 33, 67)] + [T('layout', k, 60, 1, covers=L, **B) for k in range(4, 10)]
    r += [T('layout', 10000 + k, 0, 1, **BX) for k in RECORDED if k < 91] + [T('layout', k, 60, 1, covers=L, **BX) for k in range(16, 216)] + [T('layout', k, n, 1, covers=L, **BX) for k, n in shapes(300, 340)]
    r += [T('layout', k, n, 0, covers=L, **X) for k, n in shapes(3400, 5400)]
    some = [k for k in RECORDED if k % 3 == 0 and k not in LONGEST]
    r += [T('header_layout', k, 0, 3, 1, 0, covers=['telegram']) for k in [0, 1, 2, 3] + [10000 + k for k in some]] + [T('header_layout', k, 0, 13, 1, 0, covers=['telegram']) for k in [0, 1, 2, 3] + [10000 + k for k in RECORDED if k % 3 != 1 and k != 13]]
    r += [T('header_layout', k, n, 3, 1, 0, covers=['telegram']) for k, n in shapes(4, 60) if n < 100] + [T('header_layout', k, n, 13, 1, 0, covers=['telegram']) for k, n in shapes(4, 50)]
    r += [T('header_layout', 10000 + k, 0, w, 1, 0, covers=['telegram'], **X) for k in RECORDED for w in (3, 13)] + [T('header_layout', k, n, w, 1, 0, covers=['telegram'], **X) for k, n in shapes(4, 200) for w in (3, 13)]
    r += [T('header_layout', 0, 0, 15, 0, 0, covers=['telegram'], **B)] + [T('header_layout', k, n, 15, 1, 0, covers=['telegram'], **BX) for k, n in shapes(4, 40)]
    r += [T('record_pairs', d, 2, t, 0, 14, covers=['list', 'ok']) for d in FIELDS for t in (0, 1, 2)] + [T('record_pairs', d, 2, 0, d2, 1, covers=['list', 'ok'], **B) for d, d2 in ((4, 2), (4, 4), (5, 1))]
    r += [T('record_pairs', d, n, t, d2, e, covers=['list'], **X) for d in FIELDS for d2 in FIELDS for n, t, e in ((2, 0, 1), (3, 1, 14), (3, 2, 14))]
    r += [T('record_pairs', d, 2, t, d2, 1, t2, covers=['list', 'ok'], **B) for d, d2 in ((4, 4), (4, 2)) for t, t2 in ((0, 3), (2, 1))]
    r += [T('record_pairs', d, 2, t, d2, 1, t2, covers=['list'], **X) for d in FIELDS for d2 in FIELDS for t, t2 in ((0, 3), (2, 1), (0, 2), (1, 1))]
    return r
def C24():
    r = [T('hex_file', n, 0, 0, covers=['err', 'ok'] if n else ['err']) for n in (0, 1, 2, 3, 4)] + [T('hex_file', n, 0, 1, covers=['err', 'ok']) for n in (5, 6, 7)] + [T('hex_file', n, 0, 2, covers=['err', 'ok']) for n in (8, 9)] + [T('hex_file', 3, 3, 1, covers=['err', 'ok'])]
    r += [T('hex_file', n, 0, 3, a, a + w, covers=['ok']) for n in (15, 33, 90, 783) for a, w in ((0, 2), (n - 3, 3), (n // 2, 2), (n // 3, 1))]
    r += [T('hex_file', n, k, 0, covers=['verbatim']) for k in (1, 2, 4, 5) for n in (0, 1, 2, 40)] + [T('hex_file', 300, 1, 0, covers=['verbatim'])]
    r += [T('hex_file', n, 0, 1, **BX) for n in (8, 9, 10)] + [T('hex_file', n, 0, 2, **BX) for n in (10, 11, 12)] + [T('hex_file', 5, 0, 0, **BX), T('hex_file', 6, 0, 0, **BX)] + [T('hex_file', 60, 0, 3, a, a + 3, **X) for a in range(0, 58, 2)]
    r += [T('hex_list', n, k, covers=['ok']) for n in (1, 2, 3, 5, 9, 17, 60, 100, 255, 256, 261) for k in range(4)]
    r += [T('hex_list', n, k, covers=['ok'], **X) for n in range(1, 262, 3) for k in range(4, 8)] + [T('hex_list', n, 8, covers=['ok'], **X) for n in (400, 1000)]
    return r
def C25():
    r = [T('error_text', n, k, covers=['rendered']) for n in (0, 1, 2, 3) for k in (0, 1, 2)] + [T('error_text', 4, 0, covers=['rendered'])]
    r += [T('no_panic', l, e, covers=['err']) for e, l in ((0, 5), (0, 9), (1, 3), (3, 3), (5, 3), (6, 4))]
    r += [T('error_convert', n, k, covers=['converted']) for n in (0, 1, 2, 3, 4, 5) for k in (0, 1)]
    r += [T('error_text', n, 2, covers=['rendered'], **BX) for n in (4, 5)]
    r += [T('error_text', n, k, p, covers=['rendered']) for n in (5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33, 64) for k in (0, 1, 2) for p in (1, 2)] + [T('error_convert', n, k, p, covers=['converted']) for n in (6, 7, 8, 9, 10, 12, 16, 17, 33, 64) for k in (0, 1) for p in (1, 2)]
    r += [T('error_text', n, k, p, covers=['rendered'], **X) for n in range(5, 40) for k in (0, 1, 2) for p in (3, 4, 5)]
    return r
def C26():
    r = [T('history', k, n, z, covers=['twice']) for k, z in ((0, 3), (1, 0), (4, 0), (6, 0), (8, 0), (9, 0), (10, 0), (11, 0), (12, 0), (13, 0), (14, 0)) for n in (0, 40)]
    r += [T('history', k, n, z, covers=['twice'], **B) for k, n, z in ((2, 0, 0), (3, 0, 2), (5, 0, 0), (7, 40, 1), (2, 40, 1))]
    r += [T('history', k, 300, z, covers=['twice']) for k, z in ((1, 0), (6, 0), (8, 0), (11, 0), (14, 0))]
    m = [(0, 3), (1, 0), (15, 0), (16, 0), (4, 0), (17, 0), (6, 0), (7, 1), (8, 0), (9, 0), (10, 0), (11, 0), (12, 0), (13, 0), (14, 0)]
    r += [T('history', k, n, 0, covers=['twice']) for k in range(18, 31) for n in (0, 40)]
    c = [(k, 0) for k in range(18, 31) if k != 27] + [(31, 3), (33, 2), (34, 3), (36, 4), (39, 0), (44, 3), (47, 2)]
    r += [T('history_mixed', *x, *y, covers=['both']) for x in m + c for y in m + c]
    f = [(0, 3), (1, 0), (2, 0), (3, 2), (4, 0), (5, 0), (6, 0), (7, 2), (8, 0), (9, 0), (10, 0), (11, 0), (12, 0), (13, 0), (14, 0)]
    r += [T('history_mixed', *x, *y, **BX) for x in f for y in f]
    r += [T('history', 7, 0, 1), T('history', 7, 0, 2, **BX), T('history', 3, 0, 3, **BX), T('history', 3, 40, 2, **BX), T('history', 0, 0, 6, **BX)]
    r += [T('history_layout', 10000 + k, 0, 10000 + (k * 7 + 3) % 91, 0, covers=['thrice']) for k in range(0, 91, 2) if (k * 7 + 3) % 91 != 91] + [T('history_layout', k, n, k + 1, 60, covers=['thrice']) for k, n in shapes(5400, 5440)]
    r += [T('history_layout', 10000 + k, 0, 10000 + l, 0, covers=['thrice'], **X) for k in range(0, 91, 3) for l in range(0, 91, 4)] + [T('history_layout', k, n, k + 1, 120, covers=['thrice'], **X) for k, n in shapes(5500, 5900)]
    r += [T("history_count", 66000, k, covers=['decoded'], steps=10 ** 11) for k in range(26)] + [T("history_all", 20, FREE, 3, covers=['decoded'], steps=10 ** 11), T('history_all', 2, 7, 2, covers=['decoded'], steps=10 ** 11)]
    r += [T('history_all', 260, FREE, 3, covers=['decoded'], thorough=True, secs=1500, steps=10 ** 12)] + [T('history_all', 5, k, 3, covers=['decoded'], thorough=True, secs=1500, steps=10 ** 12) for k in (0, 2, 3, 5, 7, 14)]
    r += [T('history', k, 0, z, covers=['twice']) for k in (31, 32, 33, 34, 37, 38, 40, 42, 43, 44, 46, 47) for z in (1, 2, 3, 4, 5, 8, 9)] + [T('history', 35, 0, z, covers=['twice']) for z in (9, 12, 15)] + [T('history', 36, 0, z, covers=['twice']) for z in (1, 2, 3, 4, 6, 8)] + [T('history', k, 0, z, covers=['twice']) for k in (41, 45) for z in (1, 4, 9)] + [T('history', 39, 0, 0, covers=['twice'])]
    r += [T('history', k, 40, 3, covers=['twice']) for k in range(31, 48) if k != 35] + [T('history', k, 0, 60, covers=['twice']) for k in (33, 34, 37, 38, 40, 44)]
    r += [T('history', 48, 0, z, covers=['twice']) for z in (5, 6, 8, 11)] + [T('history', 49, 0, z, covers=['twice']) for z in (2, 3, 4)] + [T('history', 50, 0, z, covers=['twice']) for z in (6, 20)]
    return r
def C27():
    r = [T('stream_kind', k, s, covers=['done']) for k in list(range(0, 6)) + [6, 7, 9, 11, 12, 13] for s in range(6)]
    r += [T('stream_kind', 14, s, covers=['done'], **B) for s in range(6)]
    r += [T('stream_partial', k, 1000, covers=['incomplete']) for k in (0, 1, 2, 3, 4, 5)] + [T('stream_partial', 14, 1000, covers=['incomplete'], **B), T('stream_partial', 5, 1000, covers=['incomplete'])]
    r += [T('sequence', n, k, covers=['all'] if k else []) for n, k in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (3, 1), (1, 3), (2, 3))] + [T('sequence', 4, 1, covers=['all'], **B)]
    r += [T('stream_kind', 15, s, **BX) for s in range(6)] + [T('stream_partial', n, 1000, **BX) for n in (15, 16)] + [T('sequence', 5, 1, **BX), T('sequence', 2, 9, **BX)]
    r += [T('stream_kind', 1000 + k, k % 6, covers=['done']) for k in range(4, 28)] + [T('stream_kind', 11000 + k, s, covers=['done']) for k in (9, 26, 33, 47) for s in range(6)]
    r += [T('stream_partial', 1000 + k, 1000, covers=['incomplete']) for k in range(4, 16)] + [T('stream_partial', 11000 + k, 1000) for k in (9, 26, 33, 47)]
    r += [T('stream_kind', 11000 + k, k % 6, covers=['done'], **X) for k in range(91)] + [T('stream_partial', 11000 + k, 1000, **X) for k in range(91)]
    return r
def tasks(p):
    seen, out = set(), []
    for t in sorted(globals()[p](), key=lambda t: t.thorough):
        k = (t.harness, tuple(t.params))
        if k not in seen: seen.add(k); out.append(t)
    return out

ASSUMPTIONS = [
    'the reference decoder in harness/src (tables and byte arithmetic written from the standard, not from the parsers) states what the bytes mean',
    'the interpretation of LLVM IR in engine/ is faithful; checked on every run by replaying sampled paths natively and comparing what they observe',
    'rustc lowers the release (optimised, debug assertions and overflow checks on) and the ordinary build to the same behaviour',
    'Z3 is right about unsatisfiability; a sample of its verdicts is put to cvc5 on every run',
    'memory allocation succeeds',
]
OUTSIDE = {'*': 'inputs longer than, or differently shaped from, the ones listed under bounds; unit texts outside ASCII; allocation failure'}
