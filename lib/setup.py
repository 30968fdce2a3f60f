"""Nothing is prebuilt: every check builds from /repo.  Verifies that the tools are there."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
missing = [t for t in ('java', 'gcc', 'bmake', 'node', 'python3') if not shutil.which(t)]
if missing or not os.path.exists(vf.TLCJAR):
    print('missing tools:', missing, vf.TLCJAR)
    sys.exit(1)
for n in sorted(os.listdir(vf.SPEC)):
    if n.endswith('.tla'):
        r = subprocess.run(['java', '-cp', vf.TLCJAR + ':' + vf.TLCDEPS, 'tla2sany.SANY',
                            os.path.join(vf.SPEC, n)], capture_output=True, text=True, cwd=vf.SPEC)
        if r.returncode:
            print(r.stdout[-2000:])
            sys.exit(1)
print('ready')
