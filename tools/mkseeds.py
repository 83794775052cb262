import os,subprocess,json,shutil,sys
G='cpp/include/gatl/ga/'
DEMO_SH='''#!/bin/bash
# exit 0 when the property holds on the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++-11 -std=c++17 -w -I"$PWD/cpp/include" "$here/demo.cpp" -o "$tmp/demo" || exit 2
"$tmp/demo"
'''
PRE='''#include <gatl/%s.hpp>
#include <cmath>
#include <cstdio>
using namespace ga;
using namespace %s;
template<class M> double coef(M const &m, bitset_t b) {
    double r = 0;
    ga::for_each_component(m, [&](bitset_t k, auto const &v, entry_source_t, entry_source_t, bool &) { if (k == b) r += (double) v; });
    return r;
}
static int bad = 0;
void near(char const *what, double got, double want) {
    if (!(std::abs(got - want) <= 1e-6)) { std::printf("%%s: got %%g, want %%g\\n", what, got, want); bad = 1; }
}
int main() {
%s
    return bad;
}
'''
SEEDS=[]
def seed(i,prop,edits,ns,body,needs,breaks,inc=""): SEEDS.append((i,prop,edits,ns,body,needs,breaks,inc))
exec(open('/verif/tools/seedlist.py').read())
only=sys.argv[1:]
for i,prop,edits,ns,body,needs,breaks,inc in SEEDS:
    if only and i not in only: continue
    d='/verif/seeded/'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w='/tmp/seedw'; shutil.rmtree(w,ignore_errors=True); subprocess.check_call(['git','-C','/repo','worktree','prune']); subprocess.check_call(['git','clone','-q','/repo',w])
    for f,old,new in edits:
        p=w+'/'+G+f; s=open(p).read(); assert s.count(old)==1,(i,f,s.count(old)); open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True); open(d+'/patch.diff','w').write(diff)
    shutil.rmtree(w)
    open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(inc+PRE%(ns,ns,body))
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    print('made',i)
