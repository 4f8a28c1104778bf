"""usage: stm.py ID 'statement'  (from stdin: ID\tstatement per line; also 'CLAIM\tID\tkind\tnote')"""
import re,sys,textwrap
p='/verif/tools/props.py'; s=open(p).read()
q='/verif/tools/manifest.py'; m=open(q).read()
for line in sys.stdin:
    line=line.rstrip('\n')
    if not line.strip(): continue
    f=line.split('\t')
    if f[0]=='CLAIM':
        key="    '%s': "%f[1]
        entry="    '%s': ('%s', %s),\n"%(f[1],f[2],f[3])
        m=re.sub(r"    '%s': \('.*\n"%f[1],'',m)
        a=m.index('}\nNA')
        m=m[:a]+entry+m[a:]
    else:
        mm=re.search(r"prop\('%s', .*?\n((?:     '.*\n)+?)     \("%f[0], s)
        assert mm,f[0]
        lines=textwrap.wrap(f[1],112,break_long_words=False)
        body=''.join("     '"+l.replace("'","\\'")+(" '" if i<len(lines)-1 else "',")+"\n" for i,l in enumerate(lines))
        s=s[:mm.start(1)]+body+s[mm.end(1):]
open(p,'w').write(s); open(q,'w').write(m)
