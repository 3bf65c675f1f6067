#!/usr/bin/env python3
"""Writes harness/c16_classes.hpp: classes whose members are all optional integers, over many kinds of name sets."""
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sets = {
 'K1': ['only'], 'K1e': [''], 'K1l': ['x' * 300], 'K2': ['a', 'b'], 'K2p': ['a', 'ab'], 'K2c': ['Name', 'name'], 'K2e': ['', ' '],
 'K1m': ['a_single_member_with_a_name_of_some_length'], 'K2m': ['configuration_of_first_item', 'configuration_of_second_item'], 'K2s': ['primary_address_of_person_a', 'primary_address_of_person_b'], 'K2l': ['w' * 150 + 'm' + 'w' * 149, 'w' * 150 + 'n' + 'w' * 149],
 'K3': ['id', 'name', 'value'], 'K3low': ['a', 'q', '1'], 'K3p': ['', 'a', 'aa'], 'K3long': ['y' * 299 + 'a', 'y' * 299 + 'b', 'z' + 'y' * 299],
 'K4': ['abc', 'acb', 'bac', 'cba'], 'K4low': ['ab', 'qr', '12', 'AB'], 'K5': ['x', 'xx', 'xxx', 'xxxx', 'xxxxx'], 'K5t': ['axxx', 'bxxx', 'cxxx', 'dxxx', 'exxx'],
 'K7': ['', 'a/b', '~', '\u00e9', 'with space', 'q"q', '\\'], 'K8': ['name', 'Name', 'NAME', 'nAME', 'NaMe', 'nam', 'names', 'ame'],
 'K9u': ['\u00e9', '\u00e8', '\u00c9', 'e', '\u20ac', '\u20ad', '\U0001F600', '\U0001F601', 'E'],
 'K10': [str(i) for i in range(10)], 'K12': ['first_name', 'last_name', 'firstname', 'lastname', 'first', 'last', 'name_first', 'name_last', '_name', 'name_', 'first_nam', 'irst_name'],
 'K16': [a + b for a in 'acQ1' for b in 'acQ1'], 'K26': [chr(97 + i) for i in range(26)], 'K33': ['k%03d' % i for i in range(33)],
 'K64': ['member%02d' % i for i in range(64)], 'K65': ['%02dmember' % i for i in range(65)],
 'K270': ['q%d' % i for i in range(270)],
 'K100': ['n' * (i % 10 + 1) + str(i) for i in range(100)],
}
def lit(s):
    o = ''
    for b in s.encode():
        o += chr(b) if 32 <= b < 127 and chr(b) not in '"\\?' else '\\%03o' % b
    return '"' + o + '"'
out = ['// Generated by tools/mkc16.py', '#pragma once', '#include "types.hpp"']
for c, names in sets.items():
    out.append('struct %s {' % c)
    out.append('    static constexpr std::size_t N = %d;' % len(names))
    out += ['    std::optional<int> m%d;' % i for i in range(len(names))]
    out.append('    template<typename A> constexpr auto persist(A& ar) { return ar' + ''.join(' & NAMED_MEMBER_VARIABLE(%s, m%d)' % (lit(n), i) for i, n in enumerate(names)) + '; }')
    out.append('    std::optional<int>& at(std::size_t i) { switch (i) {' + ''.join(' case %d: return m%d;' % (i, i) for i in range(len(names))) + ' } std::abort(); }')
    out.append('    static const std::vector<std::string>& names() { static const std::vector<std::string> n = { ' + ', '.join(lit(n) for n in names) + ' }; return n; }')
    out.append('};')
small = [c for c in sets if len(sets[c]) < 20]
out.append('#define C16_CLASSES1(X) ' + ' '.join('X(%s)' % c for c in small))
huge = ['K270']
out.append('#define C16_CLASSES2(X) ' + ' '.join('X(%s)' % c for c in sets if c not in small and c not in huge))
out.append('#define C16_CLASSES3(X) ' + ' '.join('X(%s)' % c for c in huge))
open(os.path.join(here, 'harness', 'c16_classes.hpp'), 'w').write('\n'.join(out) + '\n')
