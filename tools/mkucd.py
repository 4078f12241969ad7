#!/usr/bin/env python3
"""Writes witness/ucd.hpp: what Unicode 15.0 says, as runs of code points, taken from Perl's copy of the
Unicode character database and cross-checked with Python's. Run once; the result is committed."""
import subprocess, unicodedata, sys
assert unicodedata.unidata_version == '15.0.0'
PERL = r'''
use Unicode::UCD; die unless Unicode::UCD::UnicodeVersion() eq "15.0.0";
for my $p ("White_Space","Join_Control","Alphabetic","Uppercase","Lowercase","XID_Start","XID_Continue","Noncharacter_Code_Point") {
  print "B $p ", join(" ", Unicode::UCD::prop_invlist($p)), "\n"; }
my ($l,$m,$f,$d)=Unicode::UCD::prop_invmap("General_Category");
my %short; for my $i (0..$#$l) { my @n = Unicode::UCD::prop_value_aliases("gc",$m->[$i]); print "G $l->[$i] $n[0]\n"; }
($l,$m,$f,$d)=Unicode::UCD::prop_invmap("Simple_Case_Folding");
for my $i (0..$#$l) { print "F $l->[$i] $m->[$i]\n"; }
'''
N = 0x110000
B, G, F = {}, [], []
for line in subprocess.run(['perl', '-e', PERL], capture_output=True, text=True, check=True).stdout.splitlines():
    w = line.split()
    if w[0] == 'B':
        s = bytearray(N); inv = [int(x) for x in w[2:]] + [N]
        for a, b in zip(inv[0::2], inv[1::2]): s[a:b] = b'\1' * (b - a)
        B[w[1]] = s
    elif w[0] == 'G': G.append((int(w[1]), w[2]))
    else: F.append((int(w[1]), int(w[2])))
cat = [None] * N
for (a, c), (b, _) in zip(G, G[1:] + [(N, '')]):
    for i in range(a, min(b, N)): cat[i] = c
fold = [0] * N
for (a, m), (b, _) in zip(F, F[1:] + [(N, 0)]):
    for i in range(a, min(b, N)): fold[i] = 0 if m == 0 else m + (i - a) - i
for i in range(N):
    c = chr(i)
    assert unicodedata.category(c) == cat[i], (hex(i), cat[i])
    assert c.isupper() == bool(B['Uppercase'][i]) and c.islower() == bool(B['Lowercase'][i]), hex(i)
    assert (('a' + c).isidentifier()) == bool(B['XID_Continue'][i]), hex(i)
    assert c == '_' or c.isidentifier() == bool(B['XID_Start'][i]), hex(i)
    f = c.casefold()
    if len(f) == 1 and cat[i] != 'Cs': assert ord(f) - i == fold[i], hex(i)
    elif len(f) > 1 and fold[i]: assert ord(c.lower()) - i == fold[i], hex(i)
cps = range(N)
P = lambda n: (lambda i: bool(B[n][i]))
alpha, space = P('Alphabetic'), P('White_Space')
blank = lambda i: cat[i] == 'Zs' or i == 9
graph = lambda i: not space(i) and cat[i] not in ('Cc', 'Cs', 'Cn')
CLASSES = dict(
    control=lambda i: cat[i] == 'Cc', blank=blank, newline=lambda i: i in (10, 13, 0x85, 0x2028, 0x2029),
    other_space=lambda i: i in (11, 12), space=space, digit=lambda i: cat[i] == 'Nd', lower=P('Lowercase'), upper=P('Uppercase'),
    alpha=alpha, alpha_digit=lambda i: alpha(i) or cat[i] == 'Nd',
    word=lambda i: alpha(i) or cat[i] in ('Nd', 'Mn', 'Mc', 'Me', 'Pc') or bool(B['Join_Control'][i]),
    graph=graph, print=lambda i: (graph(i) or blank(i)) and cat[i] != 'Cc', character=lambda i: cat[i] != 'Cn',
    xid_start=P('XID_Start'), xid_start_underscore=lambda i: bool(B['XID_Start'][i]) or i == 0x5F, xid_continue=P('XID_Continue'),
    noncharacter=P('Noncharacter_Code_Point'), private_use=lambda i: cat[i] == 'Co', surrogate=lambda i: cat[i] == 'Cs')
cats = 'Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn'.split()
def runs(f):
    out, a = [], 0
    for i in range(1, N + 1):
        if i == N or f(i) != f(a): out.append((a, i - 1, f(a))); a = i
    return out
def emit(name, rs):
    print(f'inline constexpr Run {name}[] = {{' + ','.join('{%d,%d,%d}' % (a, b, int(v)) for a, b, v in rs) + '};', file=out)
out = open('/verif/witness/ucd.hpp', 'w')
print('// Unicode 15.0 as runs of code points; written by tools/mkucd.py.\n#pragma once\nnamespace ucd\n{\nstruct Run { unsigned lo, hi; int value; };', file=out)
print('#define UCD_CATEGORIES(X) ' + ' '.join(f'X({c})' for c in cats), file=out)
emit('category', runs(lambda i: cats.index(cat[i])))
# the folding is not constant on runs like A a B b, so runs of equal offset
emit('fold', [(x, min(b, x + 4095), v) for a, b, v in runs(lambda i: fold[i]) for x in range(a, b + 1, 4096)])
for n, f in CLASSES.items(): emit('is_' + n, runs(f))
print('}', file=out)
