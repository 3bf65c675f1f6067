#!/usr/bin/env python3
"""Generates the shard translation units that instantiate the type universe: python3 shards.py OUTDIR NSHARDS [filter]"""
import sys
BOOST = True
P, S, U, W = 'NO_PARSE', 'NO_SCHEMA', 'UNORDERED', 'WRITE_ONLY'
T = []
def t(ty, *flags, w=1): T.append((ty, '|'.join(flags) if flags else '0', w))
base = ['bool','char','signed char','unsigned char','short','unsigned short','int','unsigned','long','unsigned long','long long','unsigned long long','float','double','std::string','byte_vector','timestamp','ymd','std::nullptr_t','E8','EU8','E16','EU16','EInt','E64','EU64','EStr','EOne','ECustom','EBoost']
for b in base: t(b)
for b in ['int','std::string','bool','double','EStr','C2','char','byte_vector','EU16']:
    t(f'std::vector<{b}>', w=2)
for b in ['int','std::string','double','EStr']:
    t(f'std::set<{b}>', w=2)
for b in ['int','std::string','C2','E8']:
    t(f'std::map<std::string, {b}>', w=2)
t('std::unordered_map<std::string, int>', U, w=2)
t('std::unordered_map<std::string, C2>', U, w=2)
for b,n in [('int',0),('int',1),('int',3),('std::string',2),('C2',2),('int',11)]:
    t(f'std::array<{b}, {n}>', w=2)
for b in ['std::tuple<>','std::vector<std::tuple<>>','std::pair<int, std::string>','std::tuple<int>','std::tuple<int, std::string, bool>','std::tuple<std::vector<int>, C2, std::pair<int, int>, double>','std::tuple<int, int, int, int, int, int, int, int, int, int, int>']:
    t(b, w=2)
for b in ['std::unique_ptr<int>','std::unique_ptr<std::string>','std::unique_ptr<C2>','std::shared_ptr<int>','std::shared_ptr<C2>','std::shared_ptr<std::vector<int>>','std::unique_ptr<std::unique_ptr<int>>']:
    # schema of a top-level pointer to a fundamental type is not offered by the library
    t(b, S if b in ('std::unique_ptr<int>','std::unique_ptr<std::string>','std::shared_ptr<int>','std::unique_ptr<std::unique_ptr<int>>') else '0', w=2)
for c in ['C1','C1o','C1d','C1s','C1so','C1sd','C1v','C1c','C1p','C2s','C2so','C2c','C3s','C2','C2o','C2oo','C2d','C3','C4','C5','C6','C8','C8o','CNames','C10','C24','C40','Base','Der','Der2','D1','D2','Nest','Nest2','Tree','List','MTree']:
    t(c, w=3)
for c in ['MId','MOpt','MVec','MSet','MArr','MMap','MUp','MSp','MPr','MTup','WVec','WArr','WMap','WUp','WSp','WPr','WTup','WOpt','WSet']:
    t(c, *( [U] if c in ('WVec','WArr','WMap','WUp','WSp','WPr','WTup','WOpt') else []), w=8)
t('C0', P)   # the direct parser does not take a class without members
t('CLong', w=3)
t('MUMap', U, w=8)
for v in ['V1','V2','V3','V4','V5','V6','V7','V8','V9','std::vector<V1>','std::map<std::string, V3>','CVar','std::unique_ptr<V2>','std::tuple<V1, V2>']:
    t(v, P, *( [S] if 'unique_ptr<V' in v else []), w=4)
t('std::vector<std::vector<std::vector<int>>>', w=2)
t('std::map<std::string, std::map<std::string, std::vector<int>>>', w=2)
t('std::vector<std::map<std::string, std::vector<std::pair<int, std::string>>>>', w=2)
t('std::vector<std::array<std::vector<C2>, 2>>', w=2)
t('std::vector<std::shared_ptr<std::vector<std::unique_ptr<C3>>>>', w=2)
# write-only
t('std::map<std::string_view, int>', W, S)
t('std::unordered_map<std::string_view, int>', W, S, U)

GUARD = {'ymd': '#if __cplusplus >= 202002L\n%s#endif\n', 'EBoost': '#ifdef PERSISTENCE_BOOST_DESCRIBE\n%s#endif\n'}
def types():
    return T
def main():
    out, n = sys.argv[1], int(sys.argv[2])
    only = set(sys.argv[3].split(';')) if len(sys.argv) > 3 and sys.argv[3] else None
    ts = [x for x in T if not only or x[0] in only]
    n = max(1, min(n, len(ts)))
    bins = [[0, []] for _ in range(n)]
    for x in sorted(ts, key=lambda x: -x[2]):
        b = min(bins, key=lambda b: b[0]); b[0] += x[2]; b[1].append(x)
    order = {x[0]: i for i, x in enumerate(T)}
    for i, (w, xs) in enumerate(bins):
        xs.sort(key=lambda x: order[x[0]])
        body = ''.join(GUARD.get(ty, '%s') % f'    REG({f}, {ty})\n' for ty, f, _ in xs)
        open(f'{out}/shard{i}.cpp', 'w').write(f'#include "impl.hpp"\nvoid shard{i}() {{\n{body}}}\n')
    decl = ''.join(f'void shard{i}();\n' for i in range(n))
    call = ''.join(f'        shard{i}();\n' for i in range(n))
    names = ',\n'.join('        "' + x[0] + '"' for x in ts)
    open(f'{out}/registry.cpp', 'w').write(f'''#include "itype.hpp"
#include <algorithm>
#include <persistence/utility.hpp>
{decl}
std::string doc_text(const rapidjson::Document& d) {{ return persistence::document_to_string(d); }}
bool text_doc(const std::string& s, rapidjson::Document& d) {{ d = persistence::string_to_document(s); return !d.HasParseError(); }}
std::vector<IType*>& registry() {{
    static std::vector<IType*> r;
    static bool init = false;
    if (!init) {{
        init = true;
{call}        static const std::vector<std::string> order = {{
{names}
        }};
        std::sort(r.begin(), r.end(), [&](IType* a, IType* b) {{
            return std::find(order.begin(), order.end(), a->name) < std::find(order.begin(), order.end(), b->name); }});
    }}
    return r;
}}
''')
if __name__ == '__main__': main()
