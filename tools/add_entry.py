"""usage: add_entry.py FILE -- append the dict literal text in FILE to tools/entries.py and regenerate"""
import subprocess, sys
p = 'tools/entries.py'
s = open(p).read().rstrip()
assert s.endswith(']')
open(p, 'w').write(s[:-1] + open(sys.argv[1]).read().rstrip() + '\n]\n')
subprocess.check_call([sys.executable, 'tools/manifest.py'])
