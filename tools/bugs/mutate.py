"""mutate.py COPY SEED COUNT [FILE...]: random one-line mutants of the library in COPY (a scratch copy of /repo), each run
against the checks of its file until one reports it. Prints the ones no check reports (to be looked at by hand)."""
import os, random, re, subprocess, sys, time
copy, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CHECKS = {'eopsiclient.cpp': 'C23 C08 C02 C03 C05 C06 C11 C24 C04 C01', 'eopsiserver.cpp': 'C07 C24 C05 C06 C02 C04', 'eopsiparty.cpp': 'C21 C02 C11 C24 C05 C23 C06', 'eopsimsg.cpp': 'C21',
          'exception.cpp': 'C22', 'exception.h': 'C22', 'outofboundex.cpp': 'C22', 'protocolex.h': 'C22', 'hashtable.hpp': 'C12 C13', 'hashbuckets.hpp': 'C12 C13', 'markedvector.hpp': 'C13',
          'zzprf.cpp': 'C09 C10', 'zzpprf.cpp': 'C09 C10 C23', 'prf.hpp': 'C10 C13 C23', 'strint.cpp': 'C16', 'sha.hpp': 'C15', 'shastr.cpp': 'C15', 'shabyte.cpp': 'C15', 'shazzp.cpp': 'C15',
          'murmurhash3.cpp': 'C14', 'ntlmiss.cpp': 'C17 C20', 'ntlmiss.h': 'C17 C20', 'zzppoly.cpp': 'C18 C01', 'simplebm.cpp': 'C19'}
files = sys.argv[4:] or list(CHECKS)
SUB = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>-])<(?![<=a-zA-Z_])', '<='), (r'(?<![<>-])>(?![>=*&(:,;{])', '>='), (r'==', '!='), (r'!=', '=='), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r' \* ', ' / '), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])8(?![\w.])', '7'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if \((.*)\) \{$', 'if (true) {'), (r'if \((.*)\) \{$', 'if (false) {'),
       (r' \+= ', ' -= '), (r' % ', ' / '), (r' / ', ' * '), (r'<<= ', '>>= '), (r' \^= ', ' |= '), (r'(\w+)\.length\(\)', r'(\1.length() - 1)'), (r'(\w+)\.size\(\)', r'(\1.size() - 1)')]
SKIP = re.compile(r'cout|cerr|^\s*//|^\s*\*|^\s*/\*|#include|#define|#if|#endif|exit\(|catch|bad_alloc|\bbm\w*\.|^\s*(const\s+)?[\w:]+(\s*\*)? \w+(, \*?\w+)*;$|template|class |throw ')
cands = []
for f in files:
    ls = open('%s/src/libeopsi/%s' % (copy, f)).read().split('\n')
    com = False
    for n, l in enumerate(ls):
        if '/*' in l: com = True
        if com:
            if '*/' in l: com = False
            continue
        if not l.strip() or not re.match(r'\s', l) or SKIP.search(l) or (f == 'murmurhash3.cpp' and re.search('x86|32', l)): continue
        for p, r in SUB:
            for m in re.finditer(p, l):
                cands.append((f, n, l[:m.start()] + m.expand(r) + l[m.end():]))
        if l.rstrip().endswith(';') and not re.match(r'\s*(return|delete|try|case)', l): cands.append((f, n, re.match(r'\s*', l).group(0) + ';'))
random.seed(seed); random.shuffle(cands)
by = {}
for c in cands: by.setdefault(c[0], []).append(c)
pick = []
while len(pick) < count and any(by.values()):
    for f in list(by):
        if by[f]: pick.append(by[f].pop())
missed = 0
for f, n, new in pick[:count]:
    p = '%s/src/libeopsi/%s' % (copy, f); old = open(p).read(); ls = old.split('\n'); was = ls[n]; ls[n] = new
    open(p, 'w').write('\n'.join(ls))
    t = time.time(); res = 'MISSED'; notes = []
    try:
        if f.endswith('.cpp') and subprocess.run(['clang++', '-std=c++11', '-w', '-fsyntax-only', '-I%s/src' % copy, p], capture_output=True).returncode: res = 'nocompile'
        else:
            for c in CHECKS[f].split():
                r = subprocess.run(['python3', V + '/tools/check.py', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, VP_REPO=copy))
                if r.returncode == 1 and 'VIOLATION' in r.stdout: res = 'caught ' + c; break
                if r.returncode: notes.append('%s exit %d' % (c, r.returncode))
                elif 'NOTE' in r.stdout: notes.append(c + ' ' + re.search('NOTE (.*)', r.stdout).group(1)[:150])
    finally: open(p, 'w').write(old)
    if res == 'nocompile': continue
    print('%-10s %4.0f s %s:%d | %s | -> %s %s' % (res, time.time() - t, f, n + 1, was.strip(), new.strip(), notes if res == 'MISSED' else ''), flush=True)
