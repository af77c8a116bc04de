import sys,subprocess
from concurrent.futures import ThreadPoolExecutor
f,mod,lst=sys.argv[1:4]; case=sys.argv[4] if len(sys.argv)>4 else ''
def run(l):
    c,o,n=[x.replace('\\n','\n').replace('@@','||') for x in l.rstrip('\n').split('|')]
    r=subprocess.run(['timeout','400','python3-vt','/verif/tools/mut.py',f,o,n,mod,c]+([case] if case else []),capture_output=True,text=True)
    return l[:90]+'\n   => '+'\n   '.join(r.stdout.splitlines()[:2])[:160]+r.stderr[-200:]
with ThreadPoolExecutor(7) as ex:
    for x in ex.map(run,[l for l in open(lst) if l.strip()]): print(x,flush=True)
