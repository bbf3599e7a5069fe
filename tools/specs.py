"""Instances of each property's check: harness, bounds, budgets (seconds of engine time per tier)."""
SPECS = {}


def add(pid, name, src, bounds, defs=None, **kw):
    SPECS.setdefault(pid, []).append(dict(name=name, src=src, bounds=bounds, defs=defs or {}, **kw))


for m, n in ((0, 'pad'), (1, 'carries'), (2, 'padto')):
    w, pads = (16, 41) if m == 2 else (20, 131)
    add('C17', n, 'c17.cpp', 'numbers of at most %d bytes, pad sizes 0..%d' % (w, pads - 1), {'MODE': m, 'WIDTH': w, 'PADS': pads})
    if m == 2: add('C17', n + '-far', 'c17.cpp', 'numbers of at most 3 bytes, pad sizes 0..130', {'MODE': m, 'WIDTH': 3, 'PADS': 131})
    PADL = '255,256,257,300,511,512,513,1000,1024,2047,2048'
    add('C17', n + '-beyond', 'c17.cpp', 'numbers of at most %d bytes, pad sizes %s' % (3 if m == 2 else 8, PADL.replace(',', ', ')), {'MODE': m, 'WIDTH': 3 if m == 2 else 8, 'PADLIST': PADL, 'BIGINT': 1})
    add('C17', n + '-wide', 'c17.cpp', 'numbers of at most 32 bytes, pad sizes 0..200', {'MODE': m, 'WIDTH': 32, 'PADS': 201}, thorough=600, tier='thorough')

add('C20', 'blocks', 'c20.cpp', 'all 64-bit counts, block sizes of at most 8 bits', {'MODE': 0, 'PERBITS': 8}, quick=100)
add('C20', 'blocks-all', 'c20.cpp', 'all 64-bit counts and block sizes', {'MODE': 0, 'PERBITS': 64}, quick=100)
add('C20', 'bytes', 'c20.cpp', 'all 64-bit counts', {'MODE': 1})
add('C20', 'bytesZZ', 'c20.cpp', 'numbers of at most 24 bytes', {'MODE': 2, 'WIDTH': 24})
add('C20', 'log2', 'c20.cpp', 'numbers of at most 10 bytes', {'MODE': 3, 'WIDTH': 10})
add('C20', 'vectors', 'c20.cpp', 'vectors of at most 4 elements of a 61-bit field', {'MODE': 4, 'N': 4})
SH = '120,248,256,500,504,512,1016,1024,2032,2040,2048'
for m, n in ((2, 'bytesZZ'), (3, 'log2')): add('C20', n + '-huge', 'c20.cpp', 'numbers with 16 arbitrary bits %s bits up, zeros and 8 arbitrary low bits' % SH.replace(',', ', '), {'MODE': m, 'WIDTH': 260, 'SHIFTS': SH, 'BIGINT': 1})
add('C20', 'vectors-far', 'c20.cpp', 'vectors of 300 and 66000 elements of a 61-bit field, the first and last three arbitrary', {'MODE': 4, 'N': 0, 'LENGTHS': '300,66000'}, path_limit=6000000000, mem=12, quick=300, fix={'m#0': 1})
add('C20', 'log2-wide', 'c20.cpp', 'numbers of at most 20 bytes', {'MODE': 3, 'WIDTH': 20}, tier='thorough', thorough=600)
add('C20', 'bytesZZ-wide', 'c20.cpp', 'numbers of at most 60 bytes', {'MODE': 2, 'WIDTH': 60}, tier='thorough', thorough=600)
add('C20', 'vectors-long', 'c20.cpp', 'vectors of at most 12 elements of a 61-bit field', {'MODE': 4, 'N': 12}, tier='thorough', thorough=600)

for lo, hi in ((1, 9), (10, 18), (19, 26), (27, 34)):
    add('C14', 'digits%d-%d' % (lo, hi), 'c14.cpp', 'numbers of %d to %d decimal digits, all seeds, prefix lengths 0, 1, half, n-1, n and beyond, fresh hashers and after hashing a number of 21 digits' % (lo, hi), {'LO': lo, 'LEN': hi, 'PRIOR': 21})
add('C14', 'digits35-50', 'c14.cpp', 'numbers of 35 to 50 decimal digits', {'LO': 35, 'LEN': 50, 'PRIOR': 40})
add('C14', 'digits-huge', 'c14.cpp', 'numbers of 64, 65, 127, 128, 129, 255, 256, 257, 300 decimal digits', {'LO': 300, 'LEN': 300, 'LENS': '64,65,127,128,129,255,256,257,300', 'PRIOR': 40, 'BIGINT': 1})
for lo, hi in ((51, 70), (71, 90), (91, 120)):
    add('C14', 'digits%d-%d' % (lo, hi), 'c14.cpp', 'numbers of %d to %d decimal digits' % (lo, hi), {'LO': lo, 'LEN': hi, 'PRIOR': 40}, tier='thorough')

for m, n in ((0, 'bytes'), (1, 'string'), (2, 'number')):
    add('C15', n, 'c15.cpp', 'inputs of at most 6 bytes or digits, 2 known and 2 unknown flavours, sequences of up to 6 uses', {'MODE': m, 'N': 6})
    ls, big = ('20, 21, 41, 65', 65) if m == 2 else ('20, 32, 41, 65, 200', 200)
    add('C15', n + '-huge', 'c15.cpp', 'inputs of 64, 255, 256, 257, 300 bytes or digits, prefixes of 0, 1, half, n-1, n, n+1 and 4n', {'MODE': m, 'N': 300, 'LENS': '64,255,256,257,300', 'BIGINT': 1})
    add('C15', n + '-large', 'c15.cpp', 'inputs of %s bytes or digits, prefixes of 0, 1, half, n-1, n, n+1 and 4n' % ls, {'MODE': m, 'N': big, 'LENS': ls})
    add('C15', n + '-long', 'c15.cpp', 'inputs of at most 24 bytes or digits', {'MODE': m, 'N': 24}, tier='thorough')

for m, n, c, o, nb, cl, ol in ((0, 'rem', 4, 2, 64, 8, 3), (1, 'bytes', 3, 2, 64, 8, 2), (2, 'text', 2, 1, 16, 3, 2)):
    add('C16', n, 'c16.cpp', 'capacity 0..%d bytes, strings of 0..%d bytes, all %d-bit numbers, up to %d operations after construction' % (c, c + 1, nb, o), {'VIEW': m, 'CAP': c, 'OPS': o, 'NB': nb})
    add('C16', n + '-long', 'c16.cpp', 'capacity 0..%d bytes, up to %d operations' % (cl, ol), {'VIEW': m, 'CAP': cl, 'OPS': ol, 'NB': nb + 8 * (nb < 64)}, tier='thorough')
for m, n, c in ((0, 'rem', '5,6,7,9,11,20'), (1, 'bytes', '5,6,7,9,11,20')):
    add('C16', n + '-wide', 'c16.cpp', 'capacity of %s bytes, strings of the capacity, of one byte more and of half of it, all 64-bit numbers, up to 1 operation after construction' % c, {'VIEW': m, 'CAPS': c, 'OPS': 1, 'NB': 64})

for m, n, c in ((0, 'rem', '60'), (1, 'bytes', '257')):
    add('C16', n + '-huge', 'c16.cpp', 'capacity of %s bytes, strings of the capacity, of one byte more and of half of it (the last byte kept not zero), all 64-bit numbers, up to 1 operation after construction' % c, {'VIEW': m, 'CAPS': c, 'OPS': 1, 'NB': 64, 'TOP': 1, **({'BIGINT': 1} if m else {})})

B12 = '0..%d buckets of maximum load 0..%d, up to %d additions (hashed or to a named bucket, one by one, or as a list) of 6-bit elements, arbitrary hash functions of %d bytes'
for pid, m, n in (('C12', 0, 'adds'), ('C13', 1, 'conceal')):
    add(pid, n, 'c12.cpp', B12 % (3, 2, 3, 2), {'MODE': m, 'HS': 2, 'K': 3, 'LOAD': 2, 'ADDS': 3}, reach=['end', 'refused'])
    add(pid, n + '-many', 'c12.cpp', B12 % (2, 4, 5, 1), {'MODE': m, 'HS': 1, 'K': 2, 'LOAD': 4, 'ADDS': 5}, reach=['end', 'refused'], tier='quick' if m == 0 else 'thorough')
    add(pid, n + '-large', 'c12.cpp', '300 buckets of maximum load 2 or %d, two of them full but for one element, %d additions of 6-bit elements to 5 of the buckets or beyond them, hash values of 10 bytes of which 4 lead to each bucket' % (10 if m else 258, 2 - m), {'MODE': m, 'HS': 10, 'K': 300, 'LOAD': 0, 'ADDS': 2 - m, 'BIG': 10 if m else 258}, reach=['end', 'refused'])
    if m == 0: add(pid, n + '-list', 'c12.cpp', 'lists of 255, 256 and 300 elements, two of them arbitrary, one or two buckets, a fixed hash function', {'MODE': m, 'HS': 1, 'K': 2, 'LOAD': 300, 'ADDS': 0, 'LIST': 300}, reach=['end'])
    if m == 0: add(pid, n + '-anew', 'c12.cpp', B12 % (2, 1, 2, 2) + ', another hash function of 1 to 3 bytes set before', {'MODE': m, 'HS': 2, 'K': 2, 'LOAD': 1, 'ADDS': 2, 'ANEW': 1}, reach=['end', 'refused'])
    if m == 0: add(pid, n + '-digests', 'c12.cpp', B12 % (3, 1, 1, 12), {'MODE': m, 'HS': 12, 'K': 3, 'LOAD': 1, 'ADDS': 1}, reach=['end', 'refused'])
    add(pid, n + '-wide', 'c12.cpp', B12 % (7, 2, 3, 20), {'MODE': m, 'HS': 20, 'K': 7, 'LOAD': 2, 'ADDS': 3}, reach=['end', 'refused'], tier='thorough')

B18 = 'the field of %d elements, all evaluations (not all zero) at a set of %d distinct points (thorough: two sets), 1..%d polynomials, pad sizes 1..%d, %d use(s) of the object, step by step and one step, known and unknown algorithms'
R18 = ['end', 'one-step', 'steps']
for pr, d, np_, pads, runs, kw in ((13, 3, 1, 3, 1, {}), (7, 2, 2, 1, 2, dict(fix={'two#0': 0})), (7, 2, 2, 1, 2, dict(fix={'two#0': 1})), (7, 2, 2, 1, 2, dict(fix={'two#0': 2})), (31, 2, 1, 4, 1, {}), (31, 3, 1, 1, 1, dict(tier='thorough')), (13, 3, 2, 2, 1, dict(tier='thorough')), (13, 4, 1, 2, 1, dict(tier='thorough')),
                                   (11, 3, 2, 2, 2, dict(tier='thorough')), (61, 4, 1, 4, 1, dict(tier='thorough')), (127, 3, 1, 5, 1, dict(tier='thorough'))):
    add('C18', 'p%d-d%d-n%d-r%d' % (pr, d, np_, runs) + ('-%s' % kw['fix']['two#0'] if 'fix' in kw else ''), 'c18.cpp', B18 % (pr, d, np_, pads, runs), {'PRIME': pr, 'D': d, 'NP': np_, 'PADS': pads, 'RUNS': runs, 'POINTS': 2 if 'tier' in kw else 1}, reach=[r for r in R18 if runs == 1 or r == 'end'], **kw)

B09 = 'seeds of %s bytes, all 64-bit indexes, bit lengths rounded to %s bytes, %d uses of a generator or its copies, arbitrary digests'
for n, sd, nb, ops, kw in (('numbers', '0,1,16', '1,16,20,21,41', 2, {}), ('numbers-long', '0,1,12,13,16,24', '1,2,20,21,40,41,61', 2, dict(tier='thorough')), ('numbers-often', '0,16', '1,20,41', 4, dict(tier='thorough'))):
    for c, cn in enumerate(('', '-copied', '-assigned', '-replaced')):
        add('C09', n + cn, 'c09.cpp', B09 % (sd if c < 2 or kw else '0,16', nb if c < 2 or kw else '1,21,41', ops), {'MODE': 0, 'SEEDS': sd if c < 2 or kw else '0,16', 'BYTES': nb if c < 2 or kw else '1,21,41', 'OPS': ops}, reach=['end'], fix={'copy#0': c}, **kw)
add('C09', 'elements', 'c09.cpp', B09 % ('0,1,3', '1,2,4', 2) + ', fields of 8 to 41 bits', {'MODE': 1, 'SEEDS': '0,1,3', 'BYTES': '1,2,4', 'OPS': 2}, reach=['end'])
for n, sd, nb, kw in (('', '0,1,16', '1,16,21,41', {}), ('-long', '0,1,12,13,16,24', '1,2,20,21,40,41,61', dict(tier='thorough'))):
    add('C10', 'past' + n, 'c09.cpp', B09 % (sd, nb, 4), {'MODE': 2, 'SEEDS': sd, 'BYTES': nb, 'OPS': 0}, reach=['end'], **kw)
    add('C10', 'inputs' + n, 'c09.cpp', B09 % (sd, nb, 2), {'MODE': 3, 'SEEDS': sd, 'BYTES': nb, 'OPS': 0}, reach=['end', 'same'], **kw)
for n, sd, nb in (('seeds', '0,7,12,13,20,25,31,32,33,40,48', '8'), ('sizes', '3', '1,2,3,4,7,8,9,19,20,22,23,39,40,42,60')):
    add('C09', 'numbers-' + n, 'c09.cpp', B09 % (sd, nb, 2), {'MODE': 0, 'SEEDS': sd, 'BYTES': nb, 'OPS': 2}, reach=['end'], fix={'copy#0': 0})
HS, HB = '64,257', '1,64,257'
add('C09', 'numbers-huge', 'c09.cpp', B09 % (HS, HB, 2), {'MODE': 0, 'SEEDS': HS, 'BYTES': HB, 'OPS': 2, 'BIGINT': 1}, reach=['end'], fix={'copy#0': 0})
add('C10', 'past-huge', 'c09.cpp', B09 % (HS, HB, 4), {'MODE': 2, 'SEEDS': HS, 'BYTES': '1,257', 'OPS': 0, 'BIGINT': 1}, reach=['end'])
add('C10', 'inputs-huge', 'c09.cpp', B09 % (HS, HB, 2), {'MODE': 3, 'SEEDS': HS, 'BYTES': '1,257', 'OPS': 0, 'BIGINT': 1}, reach=['end', 'same'])
add('C10', 'own-seed', 'c09.cpp', 'generators that seed themselves (31 arbitrary bits), all 64-bit indexes, numbers of 1 to 2 bytes, one field of 41 bits', {'MODE': 4, 'SEEDS': '0', 'BYTES': '1,2', 'OPS': 0}, reach=['end', 'elements', 'numbers'])
add('C10', 'elements', 'c09.cpp', B09 % ('0,1,3', '1,2,4', 2) + ', fields of 8 to 41 bits', {'MODE': 1, 'SEEDS': '0,1,3', 'BYTES': '1,2,4', 'OPS': 2}, reach=['end'])

B19R = 'all sequences of %d operations after start, a named step and %s'
for n, o in (('start', 0), ('reset', 8), ('stop', 6)):
    add('C19', 'again-' + n, 'c19.cpp', B19R % (3, n) + ', arbitrary whole microseconds of 36 bits between readings', {'OPS': 6, 'BITS': 36, 'UNIT': 1000, 'FIGURES': 0, 'EVERY': 0}, fix={'op#0': 0, 'op#1': 2, 'op#2': o}, reach=['end'])
B19 = 'all sequences of %d operations of start, step, pause, cont, stop (with and without names) and reset, %s'
for o in range(10):
    add('C19', 'times-%d' % o, 'c19.cpp', B19 % (4, 'arbitrary whole microseconds of 36 bits between readings'), {'OPS': 4, 'BITS': 36, 'UNIT': 1000, 'FIGURES': 0, 'EVERY': 0}, fix={'op#0': o}, reach=['end'])
    add('C19', 'figures-%d' % o, 'c19.cpp', B19 % (4, 'intervals of 0..7 units of 1.7 ms (double precision arithmetic decided by tables)'), {'OPS': 4, 'BITS': 3, 'UNIT': 1700000, 'FIGURES': 1, 'EVERY': 0}, fix={'op#0': o}, reach=['end'])
    if o in (0, 1): add('C19', 'figures-%d-far' % o, 'c19.cpp', B19 % (4, 'intervals of 0..3 units of 2500 s'), {'OPS': 4, 'BITS': 2, 'UNIT': 2500000000000, 'FIGURES': 1, 'EVERY': 0}, fix={'op#0': o}, reach=['end'])
    add('C19', 'times-%d-long' % o, 'c19.cpp', B19 % (5, 'arbitrary whole microseconds of 36 bits between readings'), {'OPS': 5, 'BITS': 36, 'UNIT': 1000, 'FIGURES': 0, 'EVERY': 0}, fix={'op#0': o}, reach=['end'], tier='thorough')
    add('C19', 'figures-%d-fine' % o, 'c19.cpp', B19 % (4, 'intervals of 0..15 units of 1 us'), {'OPS': 4, 'BITS': 4, 'UNIT': 1000, 'FIGURES': 1, 'EVERY': 0}, fix={'op#0': o}, reach=['end'], tier='thorough')

for n, ops, kw in (('', 3, {}), ('-long', 5, dict(tier='thorough'))):
    add('C21', 'messages' + n, 'c21.cpp', 'up to %d changes of a message, identifiers of at most 3 arbitrary bytes and longer fixed ones, all lengths and types' % ops, {'MODE': 0, 'OPS': ops}, reach=['end'], **kw)
for n, ops, ln, kw in (('', 2, 1, {}), ('-more', 3, 1, dict(tier='thorough')), ('-ids', 2, 2, dict(tier='thorough'))):
    add('C21', 'registry' + n, 'c21.cpp', 'three parties with identifiers of at most %d arbitrary bytes, %d authentications or renamings' % (ln, ops), {'MODE': 1, 'OPS': ops, 'LEN': ln}, reach=['end'], **kw)
add('C22', 'exceptions', 'c22.cpp', 'messages of at most 3 arbitrary non-zero bytes and a longer text, 7 exit codes at creation, all 32-bit codes set later', {'LEN': 3}, reach=['end', 'fatal', 'non-fatal', 'exit77', 'exit0'])
add('C22', 'exceptions-long', 'c22.cpp', 'messages of at most 12 arbitrary non-zero bytes', {'LEN': 12}, reach=['end', 'fatal', 'non-fatal'], tier='thorough')

P23 = 1099511627689  # 40 bits
B23 = '%d bucket(s) of maximum load %d, up to %d elements of %d bits, a field of 40 bits, secrets of 0, 1, 2, 3, 5 bytes (the first %d), arbitrary digests%s'
for n, L, H, e, b, s, f, kw in (('points', 1, 1, 1, 8, 2, 0, {}), ('upload', 2, 1, 2, 8, 4, 1, {}), ('upload-deep', 1, 2, 2, 8, 2, 1, {}), ('upload-many', 3, 2, 3, 6, 5, 1, dict(tier='thorough')), ('upload-load', 2, 4, 5, 8, 1, 1, dict(tier='thorough'))):
    add('C23', n, 'c23.cpp', B23 % (L, H, e, b, s, ' (evaluation points concrete)' if f else ''), {'MODP': P23, 'LEN': L, 'LOAD': H, 'ELEMS': e, 'BITS': b, 'SECRETS': s, 'FIXPOINTS': f}, reach=['end'], **kw)

add('C23', 'points-later', 'c23.cpp', B23 % (1, 1, 1, 8, 2, '; after another field of 20 bits was in use'), {'MODP': P23, 'LEN': 1, 'LOAD': 1, 'ELEMS': 1, 'BITS': 8, 'SECRETS': 2, 'FIXPOINTS': 1, 'EARLIER': 1048583}, reach=['end'])
B02 = '%d bucket(s) of maximum load %d, up to %d elements of %d bits per client, a field of 40 bits, all 120 low-order key bits, secrets of 3 bytes, arbitrary digests (evaluation points concrete)'
for n, L, H, e, b, kw in (('load1', 2, 1, 2, 6, {}), ('load2', 1, 2, 2, 6, {}), ('load3', 2, 3, 3, 6, dict(tier='thorough')), ('buckets4', 4, 1, 2, 6, dict(tier='thorough'))):
    add('C02', n, 'c02.cpp', B02 % (L, H, e, b), {'MODE': 0, 'MODP': P23, 'NBUCK': L, 'LOAD': H, 'ELEMS': e, 'BITS': b, 'SYMKEY': 1, 'SYMBYTES': 9, 'ABE': int(L != 2)}, reach=['end'], **kw)
add('C02', 'later', 'c02.cpp', B02 % (1, 1, 1, 6) + '; after two other requests to the cloud with other keys', {'MODE': 0, 'MODP': P23, 'NBUCK': 1, 'LOAD': 1, 'ELEMS': 1, 'BITS': 6, 'SYMKEY': 1, 'SYMBYTES': 9, 'ABE': 0, 'PRIOR': 1}, reach=['end'])
add('C23', 'upload-secrets-far', 'c23.cpp', '1 bucket of maximum load 1, one element of 8 bits, a field of 40 bits, two secrets of each of 40 and 63 bytes, arbitrary digests (evaluation points concrete)', {'MODP': P23, 'LEN': 1, 'LOAD': 1, 'ELEMS': 1, 'BITS': 8, 'SECRETS': 2, 'FIXPOINTS': 1, 'LONGSECRETS': 2}, reach=['end'])
add('C23', 'upload-threads', 'c23.cpp', B23 % (4, 1, 1, 8, 2, '; up to 3 threads asked for, the degree set again before') , {'MODP': P23, 'LEN': 4, 'LOAD': 1, 'ELEMS': 1, 'BITS': 8, 'SECRETS': 2, 'FIXPOINTS': 1, 'THREADS': 4}, reach=['end'])
add('C23', 'upload-secrets', 'c23.cpp', '1 bucket of maximum load 1, one element of 8 bits, a field of 40 bits, secrets of 9 and 17 arbitrary bytes, arbitrary digests (evaluation points concrete)', {'MODP': P23, 'LEN': 1, 'LOAD': 1, 'ELEMS': 1, 'BITS': 8, 'SECRETS': 2, 'FIXPOINTS': 1, 'LONGSECRETS': 1}, reach=['end'])
B08 = 'secrets of %s bytes with arbitrary content (up to %d bytes) and of %s bytes (arbitrary first and fourth byte), %s identifiers, %d bucket(s) of maximum load 1, one element of 6 bits, a field of 40 bits, arbitrary digests (evaluation points concrete)'
add('C08', 'secrets', 'c02.cpp', B08 % ('0, 1, 2, 4', 4, '6, 9, 17, 40', 2, 1), {'MODE': 1, 'MODP': P23, 'NBUCK': 1, 'LOAD': 1, 'ELEMS': 1, 'BITS': 6, 'SYMKEY': 0, 'SYMBYTES': 4, 'SIZES': 8}, reach=['end'])
add('C08', 'secrets-huge', 'c02.cpp', B08 % ('no', 4, '63, 64, 65, 100, 128, 255, 256, 257', 1, 1), {'MODE': 1, 'MODP': P23, 'NBUCK': 1, 'LOAD': 1, 'ELEMS': 1, 'BITS': 6, 'SYMKEY': 0, 'SYMBYTES': 4, 'SIZES': 8, 'IDS': 1, 'BIGINT': 1}, reach=['end'])
add('C08', 'secrets-anew', 'c02.cpp', B08 % ('1, 2, 4', 4, '6, 9, 17, 40', 2, 1) + ', after a request with another secret', {'MODE': 1, 'MODP': P23, 'NBUCK': 1, 'LOAD': 1, 'ELEMS': 1, 'BITS': 6, 'SYMKEY': 0, 'SYMBYTES': 4, 'SIZES': 8, 'IDS': 1, 'EARLIERSECRET': 1}, reach=['end'])
add('C08', 'secrets-long', 'c02.cpp', B08 % ('0 to 4', 4, '5, 6, 8, 9, 12, 16, 17, 33, 40', 2, 2), {'MODE': 1, 'MODP': P23, 'NBUCK': 2, 'LOAD': 1, 'ELEMS': 1, 'BITS': 6, 'SYMKEY': 0, 'SYMBYTES': 4, 'SIZES': 14}, reach=['end'], tier='thorough')
B11 = '%s buckets of maximum load %s, all 120 low-order key bits, secrets of 3 bytes (two of them arbitrary), a field of 40 bits'
add('C11', 'small', 'c11.cpp', B11 % ('1..3', '1..2'), {'MODP': P23, 'NBUCK': 3, 'LOAD': 2}, reach=['end'])
add('C11', 'many', 'c11.cpp', B11 % (40, 3), {'MODP': P23, 'NBUCK': 40, 'LOAD': 3, 'EXACT': 1}, reach=['end'])
add('C11', 'deep', 'c11.cpp', B11 % (6, 8), {'MODP': P23, 'NBUCK': 6, 'LOAD': 8, 'EXACT': 1}, reach=['end'])
add('C11', 'more', 'c11.cpp', B11 % (150, 2), {'MODP': P23, 'NBUCK': 150, 'LOAD': 2, 'EXACT': 1}, reach=['end'])
B24 = 'three clients, %d bucket(s) of maximum load %d, arbitrary uploads over a field of 40 bits, arbitrary digests (evaluation points concrete), keys with two arbitrary bytes, %s'
for n, L, H, o, kw in (('history', 1, 1, 4, {}), ('history-wide', 2, 2, 3, dict(tier='thorough')), ('history-long', 1, 1, 5, dict(tier='thorough'))):
    add('C24', n, 'c24.cpp', B24 % (L, H, 'all sequences of %d uploads and requests after two uploads' % o), {'MODE': 0, 'MODP': P23, 'NBUCK': L, 'LOAD': H, 'OPS': o}, reach=['end', 'answer'], **kw)
add('C24', 'lengths', 'c24.cpp', B24 % (1, 1, 'all sequences of 2 uploads and requests after two uploads') + ', uploads declared with three lengths', {'MODE': 0, 'MODP': P23, 'NBUCK': 1, 'LOAD': 1, 'OPS': 2, 'LENS': 1}, reach=['end', 'answer'])
add('C24', 'roles', 'c02.cpp', B08 % ('0, 1, 2', 4, 'no', 3, 2) + '; compared with the delegate\'s answer', {'MODE': 1, 'MODP': P23, 'NBUCK': 2, 'LOAD': 1, 'ELEMS': 1, 'BITS': 6, 'SYMKEY': 1, 'SYMBYTES': 4, 'SIZES': 3, 'IDS': 3}, reach=['end'])
for h in range(4):
    for n, L, H, o, kw in (('once', 1, 1, 1, {}), ('twice', 1, 1, 2, {}), ('wide', 2, 2, 2, dict(tier='thorough')), ('thrice', 1, 1, 3, dict(tier='thorough'))):
        add('C07', 'refusals-%s-%d' % (n, h), 'c24.cpp', B24 % (L, H, 'every combination of missing uploads, %d request(s) with known and unknown%s' % (o, ' and arbitrary partner identifiers of up to 2 bytes' if o == 1 else ' partners')), {'MODE': 1, 'MODP': P23, 'NBUCK': L, 'LOAD': H, 'ROUNDS': o}, reach=['end', 'refused'] + ['served'] * (h > 0), fix={'have#0': h & 1, 'have#1': h >> 1}, **kw)

B05 = 'three clients and a cloud, every message type of 32 bits, senders known, unknown, the receiver itself and arbitrary identifiers of 1 to 2 bytes, with and without content, before the uploads, after them, between the two answers and after the run; concrete data in a field of %d elements, %d bucket(s)'
for r, n in ((0, 'delegate'), (1, 'requester'), (2, 'cloud')):
    for st in range(4):
        add('C05', '%s-%d' % (n, st), 'c05.cpp', B05 % (61, 1), {'ROLE': r, 'MODP': 61, 'NBUCK': 1, 'BITS': 3}, reach=['end', 'refused'], fix={'stage#0': st})
    for st in (1, 3):
        add('C05', '%s-reuse-%d' % (n, st), 'c05.cpp', B05 % (61, 1) + ', in message objects that were served before', {'ROLE': r, 'MODP': 61, 'NBUCK': 1, 'BITS': 3, 'REUSE': 1}, reach=['end', 'refused'], fix={'stage#0': st, 'payload#0': 1})

B06 = '%d request(s) (with and without a new identifier of the receiver before the second) from four clients whose identifiers are prefixes of each other, claimed senders known, empty, the receiver itself and arbitrary of 1 to %d bytes, arbitrary 120 key bits and digests, concrete data in a field of %d elements'
for r, n in ((0, 'delegate'), (1, 'cloud')):
    for f in range(4):
        add('C06', '%s-%d' % (n, f), 'c06.cpp', B06 % (1, 3, 61), {'ROLE': r, 'MODP': 61, 'NBUCK': 1, 'ROUNDS': 1, 'SYMLEN': 3}, reach=['end', 'refused', 'served'], fix={'from#0': f})
        add('C06', '%s-twice-%d' % (n, f), 'c06.cpp', B06 % (2, 1, 61), {'ROLE': r, 'MODP': 61, 'NBUCK': 1, 'ROUNDS': 2, 'SYMLEN': 1}, reach=['end', 'refused', 'served'], fix={'from#0': f})

    add('C06', n + '-refusing', 'c06.cpp', B06 % (1, 1, 61) + ', the client the answer is meant for takes no message', {'ROLE': r, 'MODP': 61, 'NBUCK': 1, 'ROUNDS': 1, 'SYMLEN': 1, 'REFUSE': 1}, reach=['end', 'refused'])
add('C06', 'delegate-clouds', 'c06.cpp', B06 % (1, 1, 61) + ', after a request to another client whose cloud has the same identifier', {'ROLE': 0, 'MODP': 61, 'NBUCK': 1, 'ROUNDS': 1, 'SYMLEN': 1, 'CLOUDS': 1}, reach=['end', 'refused', 'served'])

B03 = 'the field of %d elements, %d bucket(s) of maximum load %d, arbitrary values at %d and %d points of the two answers, %d run(s) in every order of arrival'
for n, p_, L, H, st, sq, r, kw in (('orders', 13, 1, 1, 1, 2, 1, {}), ('orders-more', 31, 1, 1, 4, 0, 1, {}), ('again', 13, 1, 1, 0, 4, 2, {}), ('buckets', 13, 2, 1, 1, 8, 1, {}),
                                   ('orders-wide', 31, 1, 1, 1, 2, 1, dict(tier='thorough')), ('orders-full', 13, 1, 1, 5, 2, 1, dict(tier='thorough')), ('orders-deep', 127, 1, 2, 1, 2, 1, dict(tier='thorough')), ('again-wide', 31, 1, 1, 1, 0, 2, dict(tier='thorough')), ('again-thrice', 13, 1, 1, 1, 0, 3, dict(tier='thorough'))):
    for f in range(2):
        add('C03', '%s-%d' % (n, f), 'c03.cpp', B03 % (p_, L, H, bin(st).count('1'), bin(sq).count('1'), r), {'MODP': p_, 'NBUCK': L, 'LOAD': H, 'BITS': 2, 'SYMT': st, 'SYMQ': sq, 'ROUNDS': r}, reach=['end', 'result'], fix={'first#0': f}, **kw)
for f in range(2):
    add('C03', 'repeated-%d' % f, 'c03.cpp', B03 % (13, 1, 1, 1, 1, 1) + ', the first answer arriving twice', {'MODP': 13, 'NBUCK': 1, 'LOAD': 1, 'BITS': 2, 'SYMT': 1, 'SYMQ': 2, 'ROUNDS': 1, 'REPEAT': 1}, reach=['end', 'result'], fix={'first#0': f})
B04 = 'three clients and a cloud, %d runs of every requester and delegate, %d bucket(s) of load %d, %d element(s) of each client with %d arbitrary bit(s), a field of %d elements, concrete keys and secrets'
for f in range(4):
    add('C04', 'between-%d' % f, 'c04.cpp', B04 % (0, 1, 1, 1, 1, 61) + ', and a run that others ask for between the two answers', {'MODP': 61, 'NBUCK': 1, 'LOAD': 1, 'BITS': 3, 'SYMN': 1, 'SYM': 1, 'RUNS': 0, 'BETWEEN': 1}, reach=['end', 'between'], fix={'between#0': f})
for f in (0, 4):
    add('C04', 'sizes-%d' % f, 'c04.cpp', B04 % (1, 1, 1, 1, 1, 61) + ', and a run of later parties whose elements have one bit less', {'MODP': 61, 'NBUCK': 1, 'LOAD': 1, 'BITS': 3, 'SYMN': 1, 'SYM': 1, 'RUNS': 1, 'OTHER': 1}, reach=['end', 'other'], fix={'run#0': f})
for n, p_, L, H, sn, sym, r, late, kw in (('two', 61, 1, 1, 1, 2, 2, 0, {}), ('three', 61, 1, 1, 1, 1, 3, 0, {}), ('late', 61, 2, 1, 1, 1, 2, 1, {}), ('deep', 127, 1, 2, 1, 1, 2, 0, {}), ('four', 61, 1, 1, 1, 1, 4, 0, dict(tier='thorough')), ('three-wide', 61, 1, 1, 1, 2, 3, 0, dict(tier='thorough')), ('late-wide', 61, 2, 1, 2, 1, 2, 1, dict(tier='thorough'))):
    for f in range(6):
        if late and f not in (0, 4) or n == 'three' and f not in (0, 5) or n == 'deep' and f not in (1, 4): continue
        add('C04', '%s-%d' % (n, f), 'c04.cpp', B04 % (r, L, H, sn, sym, p_), dict({'MODP': p_, 'NBUCK': L, 'LOAD': H, 'BITS': 3, 'SYMN': sn, 'SYM': sym, 'RUNS': r}, **({'LATE': 1} if late else {})), reach=['end'], fix={'run#0': f}, **kw)

B01 = 'a field of %d elements, %d bucket(s) of maximum load %d, up to %d arbitrary elements of %d bits per client, arbitrary digests for the additive masks and for %s; the others concrete, as are keys and secrets'
ALL = 'every masking polynomial'
for n, p_, L, H, e, b, ab, what, kw in (('masks', 13, 1, 1, 1, 1, 0x7f, ALL, {}), ('elements', 13, 1, 1, 1, 2, 0x47, 'one masking polynomial', {}), ('elements-more', 31, 1, 1, 1, 3, 0x07, 'none of the masking polynomials', {}), ('buckets', 13, 2, 1, 2, 1, 0x3f, 'none of the masking polynomials', {}), ('load', 67, 1, 2, 2, 1, 0x1f, 'none of the masking polynomials', {}),
                                         ('masks-wide', 31, 1, 1, 1, 2, 0x7f, ALL, dict(tier='thorough')), ('buckets-masks', 13, 2, 1, 2, 2, 0x7f, 'one masking polynomial of one of the buckets', dict(tier='thorough')), ('load-wide', 127, 1, 2, 2, 2, 0x1f, 'none of the masking polynomials', dict(tier='thorough'))):
    for f in range(2):
        if n == 'elements' and f or n == 'elements-more' and not f: continue
        add('C01', '%s-%d' % (n, f), 'c01.cpp', B01 % (p_, L, H, e, b, what), {'MODP': p_, 'NBUCK': L, 'LOAD': H, 'ELEMS': e, 'BITS': b, 'ABSTRACT': '%dL' % ab}, reach=['end', 'common', 'different'], fix={'order#0': f}, **kw)

B26 = 'requests of 0..%d bytes, the first %d of them arbitrary, from two senders; a proper request afterwards'
for r, n in ((0, 'delegate'), (1, 'cloud')):
    for z, b, kw in ((30, 6, {}), (40, 12, dict(tier='thorough'))):
        add('C26', n + ('-long' if kw else ''), 'c26.cpp', B26 % (z, b), {'ROLE': r, 'MODE': 0, 'SIZE': z, 'SYMBYTES': b}, reach=['end', 'served', 'refused'], **kw)
    add('C26', n + '-null', 'c26.cpp', 'messages of every permitted type without content; a proper request afterwards', {'ROLE': r, 'MODE': 1}, reach=['end', 'refused'])

# a field wider than a machine word: 2^89 - 1
W = {'MODP': '(((__int128)1<<89)-1)', 'WIDEFIELD': 1}
WIDE = ', a field of 89 bits'
BFAR = 'a field of 89 bits, %d bucket(s) of maximum load %d, arbitrary elements of 70 bits, common ones and one more per client and bucket, %d run(s)%s; digests, keys and secrets concrete; what the common elements leave of the combined polynomial is assumed to have no padded root'
for L, H, kw in ((1, 2, {}), (2, 1, {}), (1, 3, {}), (2, 2, {}), (1, 4, dict(tier='thorough')), (2, 3, dict(tier='thorough')), (4, 1, dict(tier='thorough'))):
    add('C01', 'far-%d-%d' % (L, H), 'c01w.cpp', BFAR % (L, H, 1, ''), dict(W, NBUCK=L, LOAD=H, BITS=70, RUNS=1), reach=['end', 'common'], **kw)
for L, H, r, kw in ((1, 2, 2, {}), (2, 1, 2, {}), (1, 3, 2, dict(tier='thorough')), (1, 2, 3, dict(tier='thorough'))):
    add('C04', 'far-%d-%d-%d' % (L, H, r), 'c01w.cpp', BFAR % (L, H, r, ', either client asking from the second on'), dict(W, NBUCK=L, LOAD=H, BITS=70, RUNS=r), reach=['end', 'common'], **kw)
for L, H, r, kw in ((1, 1, 1, {}), (2, 1, 1, {}), (1, 2, 1, {}), (1, 1, 2, {}), (2, 2, 1, dict(tier='thorough')), (1, 1, 3, dict(tier='thorough'))):
    add('C03', 'far-%d-%d-%d' % (L, H, r), 'c03w.cpp', 'a field of 89 bits, %d bucket(s) of maximum load %d, arbitrary distinct roots (padded ones of 70 bits, and others), arbitrary masks, %d run(s) in either order of arrival' % (L, H, r), dict(W, NBUCK=L, LOAD=H, BITS=70, RUNS=r), reach=['end', 'result'], **kw)
for n, L, H, e, kw in (('upload-wide', 2, 1, 2, {}), ('upload-wide-deep', 1, 2, 2, dict(tier='thorough'))):
    add('C23', n, 'c23.cpp', B23.replace(', a field of 40 bits', WIDE) % (L, H, e, 70, 3, ' (evaluation points concrete)'), dict(W, LEN=L, LOAD=H, ELEMS=e, BITS=70, SECRETS=3, FIXPOINTS=1), reach=['end'], **kw)
add('C02', 'wide', 'c02.cpp', B02.replace(', a field of 40 bits', WIDE) % (2, 1, 2, 70), dict(W, MODE=0, NBUCK=2, LOAD=1, ELEMS=2, BITS=70, SYMKEY=1, SYMBYTES=9, ABE=0), reach=['end'])
add('C24', 'history-widefield', 'c24.cpp', B24.replace('a field of 40 bits', 'a field of 89 bits') % (1, 1, 'all sequences of 2 uploads and requests after two uploads'), dict(W, MODE=0, NBUCK=1, LOAD=1, OPS=2), reach=['end', 'answer'])
add('C08', 'secrets-wide', 'c02.cpp', B08.replace('a field of 40 bits', 'a field of 89 bits').replace('6 bits', '70 bits') % ('0, 1, 2, 4', 4, '6, 9, 17, 40', 2, 1), dict(W, MODE=1, NBUCK=1, LOAD=1, ELEMS=1, BITS=70, SYMKEY=0, SYMBYTES=4, SIZES=8), reach=['end'])
for pid in ('C09', 'C10'):
    add(pid, 'elements-wide', 'c09.cpp', B09 % ('0,8,11', '1,8,9,11,12', 2) + ', a field of 89 bits', dict(W, MODE=1, SEEDS='0,8,11', BYTES='1,8,9,11,12', OPS=2), reach=['end'], tier='thorough')
    add(pid, 'element-wide', 'c09.cpp', B09 % ('0,11', '1,9,12', 1) + ', a field of 89 bits', dict(W, MODE=1, SEEDS='0,11', BYTES='1,9,12', OPS=1), reach=['end'])
for f, n, L, D in ((1, 'upload', 22000, 3), (2, 'cloud', 66000, 1)):
    add('C11', 'far-' + n, 'c11.cpp', '%d buckets of maximum load 1, %d evaluation point(s) (more than 65536 positions%s), %s, digests that copy their input' % (L, D, ' of each kind' if f == 2 else '', 'secrets of 3 bytes (two of them arbitrary)' if f == 1 else 'keys with two arbitrary bytes, uploads of zeros'), {'MODP': P23, 'NBUCK': L, 'LOAD': 1, 'DEG': D, 'FAR': f}, reach=['end'], path_limit=9000000000, mem=14, quick=500)
add('C23', 'upload-far', 'c23.cpp', '22000 buckets of maximum load 1 (more than 65536 values), one element, a field of 40 bits, secrets of 1 byte, digests that copy their input', {'MODP': P23, 'LEN': 22000, 'LOAD': 1, 'ELEMS': 1, 'BITS': 1, 'SECRETS': 2, 'FIXPOINTS': 1, 'FAR': 1}, fix={'late#0': 0, 'seclen#0': 1}, reach=['end'], path_limit=6000000000, mem=12, quick=400)
B18W = 'a field of 89 bits, pad size %d, 1..%d polynomials over %d fixed points with up to %d padded and unpadded roots, repeated ones among them, and a factor without roots, all roots (padded ones of %d bits)'
for n, np_, d, kinds, kw in (('wide', 2, 3, 4, {}), ('wide-deep', 1, 4, 8, {}), ('wide-more', 2, 4, 8, dict(tier='thorough')), ('wide-rest', 1, 5, 9, dict(tier='thorough'))):
    add('C18', n, 'c18.cpp', B18W % (18, np_, d, d - 1, 70), dict(W, NP=np_, D=d, KINDS=kinds, PAD=18, BITS=70, NONRESIDUE=3), reach=['end'], **kw)

# more evaluation points than the least number
EX = ', %d evaluation points more than needed'
add('C01', 'points-far', 'c01w.cpp', BFAR % (2, 1, 1, '') + EX % 2, dict(W, NBUCK=2, LOAD=1, BITS=70, RUNS=1, EXTRA=2), reach=['end', 'common'])
add('C02', 'points', 'c02.cpp', B02 % (2, 1, 2, 6) + EX % 1, {'MODE': 0, 'MODP': P23, 'NBUCK': 2, 'LOAD': 1, 'ELEMS': 2, 'BITS': 6, 'SYMKEY': 1, 'SYMBYTES': 9, 'ABE': 0, 'EXTRA': 1}, reach=['end'])
add('C03', 'points-far', 'c03w.cpp', 'a field of 89 bits, one bucket of maximum load 1, arbitrary roots and masks, one run in every order of arrival' + EX % 2, dict(W, NBUCK=1, LOAD=1, BITS=70, RUNS=1, EXTRA=2), reach=['end'])
add('C04', 'points-far', 'c01w.cpp', BFAR % (2, 1, 2, ', either client asking from the second on') + EX % 2, dict(W, NBUCK=2, LOAD=1, BITS=70, RUNS=2, EXTRA=2), reach=['end', 'common'])
add('C08', 'points', 'c02.cpp', B08 % ('0, 1, 2, 4', 4, '6', 1, 2) + EX % 1, {'MODE': 1, 'MODP': P23, 'NBUCK': 2, 'LOAD': 1, 'ELEMS': 1, 'BITS': 6, 'SYMKEY': 0, 'SYMBYTES': 4, 'SIZES': 5, 'IDS': 1, 'EXTRA': 1}, reach=['end'])
add('C11', 'points', 'c11.cpp', B11 % ('1..3', '1..2') + EX % 3, {'MODP': P23, 'NBUCK': 3, 'LOAD': 2, 'EXTRA': 3}, reach=['end'])
add('C23', 'upload-points', 'c23.cpp', B23 % (2, 1, 2, 8, 2, ' (evaluation points concrete)') + EX % 3, {'MODP': P23, 'LEN': 2, 'LOAD': 1, 'ELEMS': 2, 'BITS': 8, 'SECRETS': 2, 'FIXPOINTS': 1, 'EXTRA': 3}, reach=['end'])
add('C24', 'points', 'c24.cpp', B24 % (2, 1, 'all sequences of 2 uploads and requests after two uploads') + EX % 2, {'MODE': 0, 'MODP': P23, 'NBUCK': 2, 'LOAD': 1, 'OPS': 2, 'EXTRA': 2}, reach=['end', 'answer'])
