"""C18, C19, C20: the generated parser, dry parser and chaser (Machine.tla)."""
import os, random
from common import *
from grammar import *
from predict import layered, decisive, DECIDE

def gen_harness(extra=(), opt='-O2', asm='asmjit'):
    core = build_core(opt, tuple(extra))
    cg = os.path.join(scratch(), 'codegen.o'); go = os.path.join(scratch(), 'gen.o'); b = os.path.join(scratch(), 'gen_harness')
    inc = ['-I' + os.path.join(VERIF, 'harness')]
    compile_all(core + [(cg, ['g++', *CXXFLAGS, opt, '-DNDEBUG', *extra, *inc, '-c', os.path.join(REPO, 'src/core/CodeGenEM64T.cpp'), '-o', cg]),
                        (go, ['g++', *CXXFLAGS, opt, '-DNDEBUG', '-msse4.2', *extra, *inc, '-c', os.path.join(VERIF, 'harness', 'gen_harness.cpp'), '-o', go])])
    compile_all([(b, ['g++', *extra, go, cg, *[o for o, _ in core], '-o', b, '-lpthread', '-lrt'])])
    return b

def cmd(flags, text, page, made, seed, most, inputs, times=0):
    t = cp(text)
    ins = ' '.join('%d %d %s' % (g, len(s), ' '.join(map(str, s))) for s, g in inputs)
    return '%s %d %s %d %d %d %d %d %s %s' % (flags, len(t), ' '.join(map(str, t)), page, made, seed, most, len(inputs), ins, times if times else '')

# grammars with inputs of their own
LONG = 'abcdefghijklmnopqrstuvwxyz0123456789'
FIXED = [
 ("S: 'a'* 'b';", ['b', 'ab', 'a a a b', '', 'a', 'ba', ' ' * 40 + 'b', 'a' * 300 + 'b']),
 ("S: /[a-z]+/{0} ( ',' /[a-z]+/{1} )*;", ['a', 'a,b', 'abc , def,g', 'a,', ',', LONG[:26] * 4 + ' ,' + LONG[:26], 'a' * 15 + ',' + 'b' * 16 + ',' + 'c' * 17 + ',' + 'd' * 31 + ',' + 'e' * 32 + ',' + 'f' * 33]),
 ("S: /[a-z]*+/ ';' /[^;]*+/ ';';", [';;', 'a;b;', 'a' * 14 + ';b;', 'a' * 15 + ';b;', 'a' * 16 + ';' + 'b' * 16 + ';', 'a' * 17 + ';' + '\x80\xff' * 20 + ';', 'a' * 32 + ';' + '-' * 31 + ';', 'a' * 47 + '; ;', 'A;;']),
 ("S: /[a-z]++/ ';';", ['a;', ';', 'a' * 15 + ';', 'a' * 16 + ';', 'a' * 17 + ';', 'a' * 33 + ';', 'a' * 32]),
 ("S: /(ab)*+c/ 'x';", ['cx', 'abcx', 'ab' * 8 + 'cx', 'ab' * 9 + 'c x', 'abx', 'ac']),
 ("S: /(a|b)*+c/;", ['c', 'abababc', 'aaaabbbbaaaabbbbaaaac', 'b' * 40 + 'c', 'ab']),
 ("S: /([a-f]|[0-5]x)*+;/;", [';', 'abc0x;', 'a' * 20 + '1x' * 3 + 'b' * 20 + ';', '0;', '1xx;']),
 ("S: /[acegikmoqsuwy02468]*+z/;", ['z', 'a' * 20 + 'z', 'aceg8z', 'acegikmoqsuwy02468' * 3 + 'z', 'y' * 17 + 'z', '02468z', 'bz']),
 ("S: /[acegikmo]*+z/ /[acegikm]*+z/ /[acegikmoq]*+z/;", ['acegikmozacegikmzacegikmoqz', 'o' * 17 + 'z' + 'm' * 16 + 'z' + 'q' * 33 + 'z', 'oozozz', 'qzzz', 'zzz']),
 ("S: /[^bdfhjln]*+b/ /([ace]|[gik]|[mo])++z/;", ['acegikmob' + 'o' * 20 + 'z', '~b' + 'acegikmo' * 3 + 'z', 'pbz', '\xfebaz']),
 ("S: /[acegikmoqsuwy]+/ ';';", ['acegikmoqsuwy;', 'y;', 'b;']),
 ("S: /.+/;", ['a', 'abc', 'a b\nc', '\xfe', '\xff', '']), ("S: /.*+/ | /x/;", ['a', 'a' * 40]), ("S: /[^a]+/ 'a';", ['ba', 'b' * 40 + 'a', 'bb', '\x01\xfea']), ("S: /\"([^\"\\\\]|\\\\.)*+\"/;", ['""', '"abc"', '"a\\"b"', '"' + 'x' * 40 + '\\n' + 'y' * 17 + '"', '"abc', '"\\']),
 ("S: 'abcdefg' | 'abcdefgh' | 'x';", ['abcdefg', 'abcdefgh', 'x', 'abcdef']),
 ("S: 'abcdefgh' ';';", ['abcdefgh;', 'abcdefgi;', 'xbcdefgh;', 'abcdefg', 'abcdefgh']),
 ("S: 'abcdefghijklmno'{5} 'abcdefghijklmnop'{6} 'abcdefghijklmnopq'{7};", ['abcdefghijklmnoabcdefghijklmnopabcdefghijklmnopq', 'abcdefghijklmno abcdefghijklmnop\tabcdefghijklmnopq', 'abcdefghijklmno abcdefghijklmnop\tabcdefghijklmnopx', 'abcdefghijklmno abcdefghijklmnox\tabcdefghijklmnopq', 'abcdefghijklmnx abcdefghijklmnop\tabcdefghijklmnopq', 'abcdefghijklmno abcdefghijklmnop\tabcdefghijklmnop']),
 ("S: '%s' 'x';" % (LONG + 'ABCDEFGHIJ'), [LONG + 'ABCDEFGHIJx', LONG + 'ABCDEFGHIJ', LONG + 'ABCDEFGHIx', LONG[:20] + '_' + LONG[21:] + 'ABCDEFGHIJx', LONG[:33] + '_' + LONG[34:] + 'ABCDEFGHIJx']),
 ("S: '\xc3\xa9' T* /[\xe0-\xfe]++;/ /* \xe3\x81\x82 */; T: \"\xe3\x81\x82\"{3} | /\xc2+x/{4} | '\x80';", ['\xc3\xa9\xe0;', '\xc3\xa9 \xe3\x81\x82\xc2\xc2x\x80\xfe\xe0;', '\xc3\xa9\xe3\x81\xe0;', '\xe9;', '\xc3\xa9\xdf;', '\xc3\xa9' + '\xe3\x81\x82' * 12 + '\xf0' * 33 + ';']),
 ("S: T*; T: 'a' ;", ['', 'a', 'aa']),
 ("S: T* '.'; T: 'a' ;", ['.'] + ['a' * n + '.' for n in (1, 2, 3, 6, 7, 8, 14, 15, 16, 31)] + ['a a a .']),
 ("S: 'a' S | 'a' T; T: 'b';", ['ab', 'aaab', 'a' * 200 + 'b', 'aaa']),
 ("S: '(' S ')' | 'x';", ['x', '(x)', '(' * 40 + 'x' + ')' * 40, '((x)', '(' * 41 + 'x' + ')' * 41, ' ( ( x ) ) ']),
 ("S: T U? V*; T: 'a'{1}; U: 'b' T; V: T V | 'c'{2};", ['a', 'aba', 'abac', 'aaac', 'aac', 'abaaacc', 'b']),
 ("E: T ('+' T)*; T: F ('*' F)*; F: /[0-9]+/ | '(' E ')';", ['1', '1+2', '1*2+(3+4)*5', '12345678901234567890+1', '(1', '1+', '((((((1))))))']),
 ("S: '' 'a'; ", ['a', '']), ("S: '';", ['', 'a']), ("S: ;", ['', 'x']), ("S: 'a'?;", ['', 'a']), ("S: /a?/ 'b';", ['b', 'ab']), ("S: 'if' |> /[a-z]+/;", ['if', 'iff', 'i', 'x']), ("S: ('a' |> 'ab') 'c';", ['ac', 'abc', 'aac']),
 ("S: \"\\n\" /\\n+/;", ['\n\n', 'a']), ("S: /[\\x80-\\xfe]+/;", ['a']), ("S: /[\x7f]+/ | 'b';", ['\x7f\x7f', 'b']),
]
def sprinkle(rng, toks):
    """Tokens of a rule with ids put behind terminals and references."""
    out = []
    for t in toks:
        out.append(t)
        if t[0] in '\'"/' and len(t) > 1 and rng.random() < .5: out += ['{', str(rng.choice([0, 1, 2, 7, 42, 300, 65535])), '}']
    return out
REG = ['[acegikmo]*+', '[a-z]+', '[0-9]+', 'a*b', '(ab|c)+', '[^;]*+', '[^a]', 'a|b', '-?[0-9]++', '[a-z]*+', '[a-z][a-z0-9]*+', '(a|b)*+c?', '()', '(a*)*', '[ab]++b?', '[ab]*+', '([ab]|[0-3]x)*+', '[acegikmoqsuwy]*+', 'x{', '[^a]*', '(ab)++', "[^'\"<>&;,:.!]++", 'a+?b', '([^"\\\\]|(\\\\["]))*+"']
LIT = ["'a'", '"b"', "'ab'", "'('", "';'", "','", "'abcdefgh'", "'aaaaaaaaaaaaaaaa'", "'" + LONG[:19] + "'", "'a b'", "'<'", "'\\n'"]
def structured(rng):
    """Rules whose choices are told apart by the next character, with long literals, expressions and ids in between."""
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4, 5])); heads = list("<>;,:!@$%^&=~")
    def head(): return "'%s%s'" % (rng.choice(heads), rng.choice(['', '', '', 'ab', 'abcdefg', LONG[:15], LONG[:18], LONG[:34]]))
    def mark():                                    # a literal whose first character no other choice of this kind has
        if not free: return None
        c = free.pop(); return "'%s%s'" % (c, rng.choice(['', '', 'x', 'bcdefgh', LONG[:16], LONG[:30]]))
    def ident(t): return t + ('{%d}' % rng.choice([0, 1, 2, 7, 42, 300, 65535]) if rng.random() < .5 else '')
    def atom(d):
        k = rng.random()
        if k < .3: return ident('/%s/' % rng.choice(REG))
        if k < .45: return ident(rng.choice(LIT))
        if k < .7: return ident(rng.choice(refs)) if refs else ident(head())
        if d == 0 or len(free) < 4: return ident(head())
        if k < .85:
            ms = [mark() for _ in range(rng.choice([2, 2, 3]))]
            return '( ' + rng.choice([' | ', ' | ', ' |> ']).join(ident(m) + ' ' + seq(d - 1) for m in ms) + ' )'
        m = mark(); e = mark()
        return '( %s %s )%s %s' % (ident(m), seq(d - 1), rng.choice('*+?'), ident(e))
    def seq(d): return ' '.join(atom(d) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
    out = []
    for j, n in enumerate(names):
        free = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"); rng.shuffle(free)
        refs = names[j + 1:]
        if rng.random() < .35 and len(free) > 2: m, e = mark(), mark(); refs = names; body = '%s %s | %s %s' % (ident(m), seq(2), ident(e), rng.choice([n + ' ', '']) + head())
        else: body = seq(2)
        out.append('%s: %s;' % (n, body))
    return '\n'.join(out)
def mixed(rng):
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3]))
    g = Gen(rng, names, lits=rng.sample(LIT, 5), regs=rng.sample(REG, 4), ids=False, depth=rng.choice([0, 0, 1]), prio=rng.choice([0, .3, .6]))
    out = []
    for j, n in enumerate(names):
        if rng.random() < .6: g.names = names[j + 1:] or ["';'"]
        else: g.names = names
        out += sprinkle(rng, g.rule(n))
    return lay(rng, out, False)

def cases(rng):
    out = []
    for k, (t, ins) in enumerate(FIXED):
        for flags in ('x', 'oxc' if k % 2 else 'ox'):
            page = rng.choice([16, 24, 64, 4096]) if flags[0] == 'o' else 64
            out.append((flags, t, page, 6, k, 30, [([ord(c) for c in s], gap) for s in ins for gap in ((32,) if len(s) > 100 else (32, 32 + 17 * (len(s) % 5)))]))
    many = 'S: %s;\n' % ' '.join('R%d{%d}' % (k, k) for k in range(300)) + '\n'.join("R%d: '%s'{%d};" % (k, 'abc'[k % 3], k) for k in range(300))
    out.append(('x', many, 4096, 0, 1, 100, [([97 + k % 3 for k in range(300)], 40), ([97 + k % 3 for k in range(299)], 40)]))
    for _, text in repo_grammars():
        if 'include' in text or 'Eager' in text: continue
        out.append(('ox', text, 64, 30 if THOROUGH else 12, 1, 200, []))
    n = 9000 if THOROUGH else 640
    for k in range(n):
        t = layered(rng)[0][1] if k % 4 == 0 else decisive(rng, k)[0][1] if k % 8 == 1 else mixed(rng) if k % 8 == 5 else structured(rng)
        flags = ('o' if k % 3 else '') + 'x' + ('c' if k % 5 == 4 else '')
        out.append((flags, t, rng.choice([16, 24, 32, 40, 64, 128]), 24 if THOROUGH else 12, SEED * 100000 + k, rng.choice([6, 12, 30, 60]), []))
    return out

BIG = [('', "S: T* '.'; T: 'a';", 'a', 600000, '', '.'), ('', "S: T* '.'; T: 'a';", 'a', (1 << 19) - 1, '', '.'), ('c', "S: T* '.'; T: 'a';", 'a', (1 << 19) - 2, '', '.'), ('c', "S: ( E ';' )* '.'; E: T ('+' T)*; T: /[0-9]+/ | '(' E ')';", '((1)+22+3);', 90000, '', '\n.')]

def records(h, cs):
    out = drive(h, [cmd(*c) for c in cs], timeout=600)
    recs = []
    for c, o in zip(cs, out):
        r = {'text': c[1]}; r.update(o); r['chased'] = 'x' in c[0]; recs.append(r)
    return recs

ASPECTS = {'C18': ('marker', 'stream', 'pages', 'crash'), 'C19': ('accepts', 'dry', 'crash'), 'C20': ('chaser', 'chaser-end', 'chaser-all', 'crash')}
def decide(pid):
    chk = Check(pid, 'model_checking')
    rng = random.Random('%s-%d' % (pid, SEED))
    h = gen_harness()
    cs = cases(rng)
    if pid == 'C18': cs += [(fl, t, rng.choice([64, 4096, 1032]), 0, 0, 0, [([ord(c) for c in s], 0) for s in (u, a, b)], n) for fl, t, u, n, a, b in BIG]
    for k, c in enumerate(cs):
        if len(c) == 8: cs[k] = ('B' + c[0],) + c[1:]
    recs = records(h, cs)
    # grammars that are refused have nothing to show, and a lookahead automaton can be too large to wait for
    use = [r for r in recs if r.get('ok', True) and r.get('why') != 'hang']
    for r in recs:
        if r.get('why') == 'hang' and len(r['text']) < 400 and r['text'] in [t for t, _ in FIXED]: use.append(r)
    viol, st, gen = judge('Machine', use, heap='3g', consts='POSTCONDITION Ended\n', timeout=880)
    mine, seen = ASPECTS[pid], set()
    for i, aspect, rest in viol:
        if aspect not in mine or (i, aspect) in seen: continue
        seen.add((i, aspect))
        if len(seen) > 40: break
        r = use[i]; j = int(rest.split(',')[0]) if rest else 0
        run_ = r['runs'][j - 1] if j and j <= len(r.get('runs', [])) else {}
        what = '%s (run, position: %s) of %r on %r %s' % (aspect, rest, r['text'], ''.join(map(chr, run_.get('in', []))), r.get('why', ''))
        chk.violation(aspect, what, {'text': r['text'], 'run': run_, 'big': r.get('big')})
    runs = [x for r in use for x in r.get('runs', [])]
    chk.coverage.update(cases=len(use), inputs=len(runs), accepted=sum(1 for x in runs if x['end'] >= 0), markers=sum(len(x['marks']) for x in runs), chased=sum(len(x['chase']) for x in runs), events=sum(len(c['ev']) for x in runs for c in x['chase']),
                        states=st, transitions=gen, traces_validated_against_impl=len(runs), refused_grammars=len(recs) - len(use), distinct_page_sizes=len(set(r.get('page') for r in use)),
                        rule='hand-written grammars with inputs around the lengths at which the code reads 16 characters at a time, the grammars of the repository, random grammars; inputs derived from the networks and damaged, at varying alignments, pages of 2 to 512 markers; real 8 MB pages compared with small ones')
    for r in use[5:len(use):max(1, len(use) // 12)]: chk.sample({'grammar': r['text'][:300], 'inputs': [''.join(map(chr, x['in'])) for x in r.get('runs', [])][:4], 'markers': [len(x['marks']) for x in r.get('runs', [])][:4]})
    chk.assumptions += ['the machine code is produced through a stand-in for the assembler library asmjit, which is not available here; it encodes the same instructions', 'networks, automata and lookahead automata are decided by C09, C10 and C12 to C15']
    return chk.finish()
def c18(): return decide('C18')
def c19(): return decide('C19')
def c20(): return decide('C20')
